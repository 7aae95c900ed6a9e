"""Hash-consed expression DAG used by the symbolic executor, with constant
folding, interval bounds, concrete evaluation and translation to z3.

Sorts
  'B'        boolean
  ('V',n)    n-bit vector                      (bit-precise mode)
  'F32','F64' IEEE-754 binary32/64             (bit-precise mode)
  'R'        mathematical real                 (real mode: floats of the code)
  'I'        mathematical integer, signed rep. (real mode: ints of the code)
Concrete booleans are Python ints 0/1, concrete ints are Python ints, concrete
floats are Python floats (already rounded to their width).
"""
import math, struct
from fractions import Fraction
import z3

INF = float('inf')
NAN = float('nan')
_pf = struct.Struct('<f')
_pd = struct.Struct('<d')


def f32(x):
    try:
        return _pf.unpack(_pf.pack(x))[0]
    except OverflowError:
        return INF if x > 0 else -INF


def f32bits(x):
    return int.from_bytes(_pf.pack(x), 'little')


def f64bits(x):
    return int.from_bytes(_pd.pack(x), 'little')


def bits32f(b):
    return _pf.unpack((b & 0xffffffff).to_bytes(4, 'little'))[0]


def bits64f(b):
    return _pd.unpack(b.to_bytes(8, 'little'))[0]


class Unsupported(Exception):
    pass


class E:
    __slots__ = ('op', 'args', 'sort', 'id', 'lo', 'hi', '__weakref__')

    def __repr__(self):
        return show(self, 4)

    def __bool__(self):
        raise TypeError('symbolic truth value')

    __hash__ = object.__hash__


_table = {}
_next = [1]


def show(e, d=3):
    if not isinstance(e, E):
        return repr(e)
    if e.op == 'var':
        return e.args[0]
    if d == 0:
        return '..'
    return '(%s %s)' % (e.op, ' '.join(show(a, d - 1) for a in e.args))


def mk(op, args, sort, lo=None, hi=None):
    key = (op, sort, tuple(a.id if isinstance(a, E) else ('k', type(a).__name__, repr(a)) for a in args))
    if op in ('var', 'trunci'):
        key += (lo, hi)          # the same name may be declared with other bounds on another path
    e = _table.get(key)
    if e is None:
        e = E()
        e.op, e.args, e.sort = op, args, sort
        e.id = _next[0]
        _next[0] += 1
        e.lo, e.hi = lo, hi
        _table[key] = e
    return e


def is_c(x):
    return not isinstance(x, E)


# ---------------------------------------------------------------- booleans
def bnot(a):
    if is_c(a):
        return 1 - a
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def band(a, b):
    if is_c(a):
        return b if a else 0
    if is_c(b):
        return a if b else 0
    if a is b:
        return a
    if a.op == 'not' and a.args[0] is b or b.op == 'not' and b.args[0] is a:
        return 0
    return mk('and', (a, b), 'B')


def bor(a, b):
    if is_c(a):
        return 1 if a else b
    if is_c(b):
        return 1 if b else a
    if a is b:
        return a
    return mk('or', (a, b), 'B')


def bxor(a, b):
    if is_c(a):
        return bnot(b) if a else b
    if is_c(b):
        return bnot(a) if b else a
    if a is b:
        return 0
    return mk('xor', (a, b), 'B')


def ite(c, a, b, sort):
    if is_c(c):
        return a if c else b
    if a is b:
        return a
    if is_c(a) and is_c(b):
        if sort in ('F32', 'F64', 'R'):
            if a == b and math.copysign(1, a) == math.copysign(1, b):
                return a
        elif a == b:
            return a
    if sort == 'B':
        if is_c(a) and is_c(b):
            return c if a else bnot(c)
        if is_c(a):
            return bor(c, b) if a else band(bnot(c), b)
        if is_c(b):
            return bor(bnot(c), a) if b else band(c, a)
    if c.op == 'not':
        return ite(c.args[0], b, a, sort)
    # min/max recognition gives tight intervals (no change of the term)
    lo = hi = None
    if sort in ('I', 'R'):
        l1, h1 = bounds(a, sort)
        l2, h2 = bounds(b, sort)
        lo = None if l1 is None or l2 is None else min(l1, l2)
        hi = None if h1 is None or h2 is None else max(h1, h2)
        if c.op in ('lt', 'le'):
            x, y = c.args
            # x < y ? a : b
            if _same(x, a) and _same(y, b):          # min
                hi = _mn(h1, h2)
                lo = None if l1 is None or l2 is None else min(l1, l2)
            elif _same(x, b) and _same(y, a):        # max
                lo = _mx(l1, l2)
            elif _same(x, a) and is_c(y):            # x<K ? x : b
                h = _mn(h1, y)
                hi = None if h is None or h2 is None else max(h, h2)
            elif _same(x, b) and is_c(y):            # x<K ? a : x
                l = _mx(l2, y)
                lo = None if l is None or l1 is None else min(l, l1)
            elif _same(y, a) and is_c(x):            # K<y ? y : b
                l = _mx(l1, x)
                lo = None if l is None or l2 is None else min(l, l2)
            elif _same(y, b) and is_c(x):            # K<y ? a : y
                h = _mn(h2, x)
                hi = None if h is None or h1 is None else max(h, h1)
            elif a is not None and not is_c(a) and a.op == 'neg' and _same(a.args[0], b):
                pass
    r = mk('ite', (c, a, b), sort, lo, hi)
    return r


def _same(x, y):
    if is_c(x) or is_c(y):
        return is_c(x) and is_c(y) and x == y
    return x is y


def _mn(a, b):
    return b if a is None else a if b is None else min(a, b)


def _mx(a, b):
    return b if a is None else a if b is None else max(a, b)


def bounds(x, sort):
    if is_c(x):
        if isinstance(x, float) and (x != x):
            return None, None
        return x, x
    return x.lo, x.hi


def _widen(lo, hi):
    if lo is not None:
        lo = None if lo != lo else lo - abs(lo) * 1e-12
        if lo == -INF:
            lo = None
    if hi is not None:
        hi = None if hi != hi else hi + abs(hi) * 1e-12
        if hi == INF:
            hi = None
    return lo, hi


# ---------------------------------------------------------------- bit-vectors
def mask(n):
    return (1 << n) - 1


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


def bvop(op, n, a, b):
    m = mask(n)
    if is_c(a) and is_c(b):
        return cbv(op, n, a, b)
    s = ('V', n)
    if op == 'add':
        if is_c(a):
            a, b = b, a
        if is_c(b):
            if b == 0:
                return a
            if not is_c(a) and a.op == 'add' and is_c(a.args[1]):
                return bvop('add', n, a.args[0], (a.args[1] + b) & m)
    elif op == 'sub':
        if is_c(b):
            return bvop('add', n, a, (-b) & m)
        if a is b:
            return 0
    elif op == 'mul':
        if is_c(a):
            a, b = b, a
        if is_c(b):
            if b == 0:
                return 0
            if b == 1:
                return a
    elif op in ('and',):
        if is_c(a):
            a, b = b, a
        if is_c(b):
            if b == 0:
                return 0
            if b == m:
                return a
        if a is b:
            return a
    elif op == 'or':
        if is_c(a):
            a, b = b, a
        if is_c(b):
            if b == 0:
                return a
            if b == m:
                return m
        if a is b:
            return a
    elif op == 'xor':
        if is_c(a):
            a, b = b, a
        if is_c(b) and b == 0:
            return a
        if a is b:
            return 0
    elif op in ('shl', 'lshr', 'ashr', 'udiv', 'sdiv'):
        if is_c(b) and b == (0 if op in ('shl', 'lshr', 'ashr') else 1):
            return a
        if is_c(a) and a == 0 and op in ('shl', 'lshr', 'ashr'):
            return 0
    # push constants through concat (byte assembled values)
    if op == 'lshr' and is_c(b) and not is_c(a) and a.op == 'concat':
        return zext(extract(a, n - 1, b, n), n - b, n) if b < n else 0
    return mk(op, (a, b), s)


def cbv(op, n, a, b):
    m = mask(n)
    if op == 'add':
        return (a + b) & m
    if op == 'sub':
        return (a - b) & m
    if op == 'mul':
        return (a * b) & m
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & m if b < n else 0
    if op == 'lshr':
        return a >> b if b < n else 0
    if op == 'ashr':
        return (sgn(a, n) >> min(b, n - 1)) & m
    if op == 'udiv':
        return a // b if b else m
    if op == 'urem':
        return a % b if b else a
    sa, sb = sgn(a, n), sgn(b, n)
    if op == 'sdiv':
        if sb == 0:
            return m
        q = abs(sa) // abs(sb)
        return (q if (sa < 0) == (sb < 0) else -q) & m
    if op == 'srem':
        if sb == 0:
            return a
        r = abs(sa) % abs(sb)
        return (r if sa >= 0 else -r) & m
    raise Unsupported(op)


def extract(a, hi, lo, n):
    w = hi - lo + 1
    if is_c(a):
        return (a >> lo) & mask(w)
    if w == n:
        return a
    if a.op == 'concat':      # args (high, low, wh, wl)
        h, l, wh, wl = a.args
        if hi < wl:
            return extract(l, hi, lo, wl)
        if lo >= wl:
            return extract(h, hi - wl, lo - wl, wh)
    if a.op == 'zext':
        x, k = a.args
        if hi < k:
            return extract(x, hi, lo, k)
        if lo >= k:
            return 0
    if a.op == 'extract':
        x, h0, l0, n0 = a.args
        return extract(x, hi + l0, lo + l0, n0)
    if a.op == 'sext':
        x, k = a.args
        if hi < k:
            return extract(x, hi, lo, k)
    if a.op in ('and', 'or', 'xor'):
        return bvop(a.op, w, extract(a.args[0], hi, lo, n), extract(a.args[1], hi, lo, n))
    if lo == 0 and a.op in ('add', 'mul', 'sub'):
        return bvop(a.op, w, extract(a.args[0], hi, 0, n), extract(a.args[1], hi, 0, n))
    if a.op == 'ite':
        return ite(a.args[0], extract(a.args[1], hi, lo, n), extract(a.args[2], hi, lo, n), ('V', w))
    if a.op == 'shl' and is_c(a.args[1]):
        k = a.args[1]
        if lo >= k:
            return extract(a.args[0], hi - k, lo - k, n)
        if hi < k:
            return 0
    if a.op == 'lshr' and is_c(a.args[1]):
        k = a.args[1]
        if hi + k < n:
            return extract(a.args[0], hi + k, lo + k, n)
    return mk('extract', (a, hi, lo, n), ('V', w))


def concat(h, l, wh, wl):
    if is_c(h) and is_c(l):
        return (h << wl) | l
    if is_c(h) and h == 0:
        return zext(l, wl, wh + wl)
    if not is_c(h) and not is_c(l) and h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] \
            and h.args[2] == l.args[1] + 1:
        return extract(h.args[0], h.args[1], l.args[2], h.args[3])
    return mk('concat', (h, l, wh, wl), ('V', wh + wl))


def zext(a, n, w):
    if n == w:
        return a
    if is_c(a):
        return a
    if a.op == 'zext':
        return zext(a.args[0], a.args[1], w)
    return mk('zext', (a, n), ('V', w))


def sext(a, n, w):
    if n == w:
        return a
    if is_c(a):
        return sgn(a, n) & mask(w)
    if a.op == 'zext' and a.args[1] < n:
        return zext(a.args[0], a.args[1], w)
    return mk('sext', (a, n), ('V', w))


def b2v(c, n):
    """bool -> n bit 0/1"""
    if is_c(c):
        return c
    return ite(c, 1, 0, ('V', n))


def bveq(a, b, n):
    if is_c(a) and is_c(b):
        return int(a == b)
    if a is b:
        return 1
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
            return ite(a.args[0], int(a.args[1] == b), int(a.args[2] == b), 'B')
        if a.op == 'zext':
            if b >> a.args[1]:
                return 0
            return bveq(a.args[0], b, a.args[1])
    return mk('eq', (a, b), 'B')


def bvcmp(pred, n, a, b):
    if pred == 'eq':
        return bveq(a, b, n)
    if pred == 'ne':
        return bnot(bveq(a, b, n))
    if pred in ('ugt', 'uge', 'sgt', 'sge'):
        return bvcmp({'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred], n, b, a)
    if is_c(a) and is_c(b):
        if pred[0] == 's':
            a, b = sgn(a, n), sgn(b, n)
        return int(a < b if pred[1:] == 'lt' else a <= b)
    if a is b:
        return int(pred[1:] == 'le')
    if pred == 'ult' and is_c(b) and b == 0:
        return 0
    if pred == 'ule' and is_c(a) and a == 0:
        return 1
    # small ranges from zext
    if not is_c(a) and a.op == 'zext' and is_c(b):
        mx = mask(a.args[1])
        sb = b if pred[0] == 'u' else sgn(b, n)
        if pred[1:] == 'lt' and mx < sb or pred[1:] == 'le' and mx <= sb:
            return 1
        if sb < 0:
            return 0
    if not is_c(b) and b.op == 'zext' and is_c(a):
        mx = mask(b.args[1])
        sa = a if pred[0] == 'u' else sgn(a, n)
        if pred[1:] == 'lt' and mx <= sa or pred[1:] == 'le' and mx < sa:
            return 0
        if sa < 0:
            return 1
    return mk(pred, (a, b), 'B')


# ---------------------------------------------------------------- math ints
def iop(op, a, b):
    """mathematical (signed) integer operation; caller checks wrap"""
    if is_c(a) and is_c(b):
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            return a * b
        if op == 'tdiv':
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if op == 'trem':
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        if op == 'fmod':
            return a % b
    la, ha = bounds(a, 'I')
    lb, hb = bounds(b, 'I')
    lo = hi = None
    if op == 'add':
        if is_c(a):
            a, b = b, a
        if is_c(b) and b == 0:
            return a
        if is_c(b) and a.op == 'add' and is_c(a.args[1]):
            return iop('add', a.args[0], a.args[1] + b)
        if None not in (la, lb):
            lo = la + lb
        if None not in (ha, hb):
            hi = ha + hb
    elif op == 'sub':
        if is_c(b):
            return iop('add', a, -b)
        if a is b:
            return 0
        if None not in (la, hb):
            lo = la - hb
        if None not in (ha, lb):
            hi = ha - lb
    elif op == 'mul':
        if is_c(a):
            a, b = b, a
        if is_c(b):
            if b == 0:
                return 0
            if b == 1:
                return a
        if None not in (la, ha, lb, hb):
            v = (la * lb, la * hb, ha * lb, ha * hb)
            lo, hi = min(v), max(v)
    elif op == 'tdiv':
        if is_c(b) and b == 1:
            return a
        if None not in (la, ha, lb, hb) and lb > 0:
            v = [iop('tdiv', x, y) for x in (la, ha) for y in (lb, hb)]
            lo, hi = min(v), max(v)
    elif op == 'trem':
        if None not in (lb, hb) and lb > 0:
            if la is not None and la >= 0:
                lo, hi = 0, hb - 1
                if ha is not None:
                    hi = min(hi, ha)
                    if is_c(b) and ha < b:
                        return a
            else:
                lo, hi = 1 - hb, hb - 1
    elif op == 'fmod':
        if None not in (lb, hb) and lb > 0:
            lo, hi = 0, hb - 1
            if is_c(b) and la is not None and ha is not None and la >= 0 and ha < b:
                return a
    return mk('i' + op, (a, b), 'I', lo, hi)


# ---------------------------------------------------------------- reals
def rc(x):
    """exact rational of a concrete float"""
    return Fraction(x)


def rop(op, a, b):
    """real op with at least one symbolic operand; constants are finite floats"""
    la, ha = bounds(a, 'R')
    lb, hb = bounds(b, 'R')
    lo = hi = None
    if op == 'add':
        if is_c(a):
            a, b = b, a
            la, ha, lb, hb = lb, hb, la, ha
        if is_c(b) and b == 0:
            return a
        if not is_c(b) and b.op == 'neg':
            return rop('sub', a, b.args[0])
        if None not in (la, lb):
            lo = la + lb
        if None not in (ha, hb):
            hi = ha + hb
    elif op == 'sub':
        if is_c(b) and b == 0:
            return a
        if is_c(a) and a == 0:
            return rneg(b)
        if a is b:
            return 0.0
        if not is_c(b) and b.op == 'neg':
            return rop('add', a, b.args[0])
        if None not in (la, hb):
            lo = la - hb
        if None not in (ha, lb):
            hi = ha - lb
    elif op == 'mul':
        if is_c(a):
            a, b = b, a
            la, ha, lb, hb = lb, hb, la, ha
        if is_c(b):
            if b == 0:
                return 0.0
            if b == 1:
                return a
            if b == -1:
                return rneg(a)
        if a is b:
            if la is not None and ha is not None:
                hi = max(la * la, ha * ha)
            lo = 0.0
            if la is not None and la > 0:
                lo = la * la
            elif ha is not None and ha < 0:
                lo = ha * ha
        elif None not in (la, ha, lb, hb):
            v = (la * lb, la * hb, ha * lb, ha * hb)
            lo, hi = min(v), max(v)
        elif la is not None and lb is not None and la >= 0 and lb >= 0:
            lo = la * lb
    elif op == 'div':
        if is_c(b) and b == 1:
            return a
        if is_c(a) and a == 0:
            return 0.0
        if lb is not None and hb is not None and (lb > 0 or hb < 0) and la is not None and ha is not None:
            v = (la / lb, la / hb, ha / lb, ha / hb)
            lo, hi = min(v), max(v)
        elif lb is not None and lb >= 0 and la is not None and la >= 0:
            lo = 0.0
    if op in ('add', 'mul') and is_c(a) is False and is_c(b) is False and a.id > b.id:
        a, b = b, a
    lo, hi = _widen(lo, hi)
    return mk('r' + op, (a, b), 'R', lo, hi)


def rneg(a):
    if is_c(a):
        return -a
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'rsub':
        return rop('sub', a.args[1], a.args[0])
    return mk('neg', (a,), 'R', None if a.hi is None else -a.hi, None if a.lo is None else -a.lo)


def rcmp(op, a, b):
    """op in lt le eq over R or I"""
    if is_c(a) and is_c(b):
        return int(a < b if op == 'lt' else a <= b if op == 'le' else a == b)
    la, ha = bounds(a, 'R')
    lb, hb = bounds(b, 'R')
    if a is b:
        return int(op != 'lt')
    if op == 'lt':
        if ha is not None and lb is not None and ha < lb:
            return 1
        if la is not None and hb is not None and la >= hb:
            return 0
    elif op == 'le':
        if ha is not None and lb is not None and ha <= lb:
            return 1
        if la is not None and hb is not None and la > hb:
            return 0
    else:
        if ha is not None and lb is not None and ha < lb or la is not None and hb is not None and la > hb:
            return 0
        if is_c(a):
            a, b = b, a
        if is_c(b):
            if not is_c(a) and a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
                return ite(a.args[0], int(a.args[1] == b), int(a.args[2] == b), 'B')
    return mk(op, (a, b), 'B')


def var(name, sort, lo=None, hi=None):
    return mk('var', (name,), sort, lo, hi)


def rebuild(x, a):
    """same operation with new arguments (re-simplified)"""
    op = x.op
    s = x.sort
    if op == 'not':
        return bnot(a[0])
    if op == 'and':
        return band(a[0], a[1])
    if op == 'or':
        return bor(a[0], a[1])
    if op == 'xor':
        return bxor(a[0], a[1])
    if op == 'ite':
        return ite(a[0], a[1], a[2], s)
    if op in ('lt', 'le'):
        return rcmp(op, a[0], a[1])
    if op == 'eq' and not any(isinstance(t, E) and isinstance(t.sort, tuple) for t in x.args):
        return rcmp('eq', a[0], a[1])
    if op in ('radd', 'rsub', 'rmul', 'rdiv'):
        if is_c(a[0]) and is_c(a[1]):
            return cfop(op[1:], a[0], a[1], 64)
        return rop(op[1:], a[0], a[1])
    if op == 'neg':
        return rneg(a[0])
    if op in ('iadd', 'isub', 'imul', 'itdiv', 'itrem', 'ifmod'):
        return iop(op[1:], a[0], a[1])
    if all(is_c(t) for t in a):
        return ev1(x, list(a))
    return mk(op, tuple(a), s, x.lo, x.hi)


def ev1(x, vals):
    y = E()
    y.op, y.sort, y.args = x.op, x.sort, tuple(vals)
    y.id, y.lo, y.hi = -1, x.lo, x.hi
    return _ev1(y, {}, {})


def resolve(e, known, memo, bools=True):
    """replace the selections whose condition is known"""
    if is_c(e):
        return e
    stack = [e]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if bools and x.sort == 'B':
            k = known.get(x.id)
            if k is not None and x is not e:
                memo[x.id] = k
                stack.pop()
                continue
        todo = [a for a in x.args if isinstance(a, E) and a.id not in memo]
        if x.op == 'ite':
            c = x.args[0]
            k = known.get(c.id)
            if k is None and c.id in memo and is_c(memo[c.id]):
                k = memo[c.id]
            if k is not None:
                b = x.args[1] if k else x.args[2]
                if isinstance(b, E) and b.id not in memo:
                    stack.append(b)
                    continue
                memo[x.id] = memo[b.id] if isinstance(b, E) else b
                stack.pop()
                continue
            if c.id not in memo:
                stack.append(c)
                continue
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        na = [memo[a.id] if isinstance(a, E) else a for a in x.args]
        if all(p is q for p, q in zip(na, x.args)):
            memo[x.id] = x
        else:
            memo[x.id] = rebuild(x, na)
    return memo[e.id]


def find_ite(e):
    """condition of an innermost unresolved R/I-sorted selection"""
    seen = set()
    order = []
    stack = [e] if isinstance(e, E) else []
    best = None
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite' and x.sort in ('R', 'I'):
            if best is None or x.id < best.id:
                best = x
        stack.extend(a for a in x.args if isinstance(a, E))
    return best.args[0] if best is not None else None


# ---------------------------------------------------------------- evaluation
def fround(sort, x):
    return f32(x) if sort == 'F32' else x


def cfop(op, a, b, w):
    """concrete IEEE op (Python floats)"""
    try:
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'div':
            if b == 0:
                if a == 0 or a != a:
                    r = NAN
                else:
                    r = math.copysign(INF, a) * math.copysign(1, b)
            else:
                r = a / b
        elif op == 'rem':
            r = math.fmod(a, b) if b != 0 and not math.isinf(a) else NAN
        else:
            raise Unsupported(op)
    except OverflowError:
        r = INF
    return f32(r) if w == 32 else r


def trig(op, xs):
    try:
        if op == 'exp':
            return math.exp(xs[0])
        if op == 'log':
            return math.log(xs[0]) if xs[0] > 0 else (-INF if xs[0] == 0 else NAN)
        if op == 'pow':
            return math.pow(*xs)
        if op == 'sin':
            return math.sin(xs[0]) if not math.isinf(xs[0]) else NAN
        if op == 'cos':
            return math.cos(xs[0]) if not math.isinf(xs[0]) else NAN
        if op == 'tan':
            return math.tan(xs[0]) if not math.isinf(xs[0]) else NAN
        if op == 'acos':
            return math.acos(xs[0]) if -1 <= xs[0] <= 1 else NAN
        if op == 'asin':
            return math.asin(xs[0]) if -1 <= xs[0] <= 1 else NAN
        if op == 'atan':
            return math.atan(xs[0])
        if op == 'atan2':
            return math.atan2(*xs)
        if op == 'log2':
            return math.log2(xs[0]) if xs[0] > 0 else (-INF if xs[0] == 0 else NAN)
        if op == 'exp2':
            return 2.0 ** xs[0]
        if op == 'log10':
            return math.log10(xs[0]) if xs[0] > 0 else (-INF if xs[0] == 0 else NAN)
        if op == 'cbrt':
            return math.copysign(abs(xs[0]) ** (1 / 3.), xs[0])
        if op == 'erf':
            return math.erf(xs[0])
    except OverflowError:
        return INF
    except ValueError:
        return NAN
    raise Unsupported(op)


def ev(e, asg, memo):
    """evaluate under an assignment name->value (approximate for R)"""
    if is_c(e):
        return e
    stack = [e]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, E) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[x.id] = _ev1(x, asg, memo)
    return memo[e.id]


def _ev1(x, asg, memo):
    op = x.op
    a = [memo[y.id] if isinstance(y, E) else y for y in x.args]
    if op == 'var':
        v = asg.get(x.args[0])
        if v is None:
            if x.sort in ('R', 'I') and x.lo is not None:
                return x.lo if x.sort == 'I' else float(x.lo)
            return 0.0 if x.sort in ('R', 'F32', 'F64') else 0
        return v
    if op == 'not':
        return 1 - a[0]
    if op == 'and':
        return a[0] & a[1]
    if op == 'or':
        return a[0] | a[1]
    if op == 'xor':
        return a[0] ^ a[1]
    if op == 'ite':
        return a[1] if a[0] else a[2]
    s = x.sort
    if s == 'B':
        y = x.args[0] if isinstance(x.args[0], E) else x.args[1]
        ys = y.sort
        if op in ('eq', 'feq'):
            return int(a[0] == a[1])
        if op in ('lt', 'flt', 'ult'):
            return int(a[0] < a[1])
        if op in ('le', 'fle', 'ule'):
            return int(a[0] <= a[1])
        if op == 'slt':
            return int(sgn(a[0], ys[1]) < sgn(a[1], ys[1]))
        if op == 'sle':
            return int(sgn(a[0], ys[1]) <= sgn(a[1], ys[1]))
        if op == 'fuo':
            return int(a[0] != a[0] or a[1] != a[1])
    if isinstance(s, tuple):
        n = s[1]
        if op == 'extract':
            return (a[0] >> a[2]) & mask(n)
        if op == 'concat':
            return (a[0] << a[3]) | a[1]
        if op == 'zext':
            return a[0]
        if op == 'sext':
            return sgn(a[0], a[1]) & mask(n)
        if op == 'fbits':
            return f32bits(a[0]) if n == 32 else f64bits(a[0])
        if op in ('ftosi', 'ftoui'):
            if a[0] != a[0] or math.isinf(a[0]):
                return 0
            return int(a[0]) & mask(n)
        return cbv(op, n, a[0], a[1])
    if s == 'I':
        if op == 'trunci':
            return int(a[0]) if a[0] == a[0] and not math.isinf(a[0]) else 0
        return iop(op[1:], a[0], a[1])
    if s in ('F32', 'F64'):
        w = 32 if s == 'F32' else 64
        if op[0] == 'f' and op[1:] in ('add', 'sub', 'mul', 'div', 'rem'):
            return cfop(op[1:], a[0], a[1], w)
        if op == 'fneg':
            return -a[0]
        if op == 'fabs':
            return abs(a[0])
        if op == 'fsqrt':
            return fround(s, math.sqrt(a[0])) if a[0] >= 0 else NAN
        if op == 'fcvt':
            return fround(s, a[0])
        if op == 'sitof':
            return fround(s, float(sgn(a[0], a[1])))
        if op == 'uitof':
            return fround(s, float(a[0]))
        if op == 'bitsf':
            return bits32f(a[0]) if w == 32 else bits64f(a[0])
        if op in ('ffloor', 'fceil', 'ftrunc', 'fround', 'frint'):
            return crnd(op[1:], a[0])
        if op == 'ffma':
            return fround(s, a[0] * a[1] + a[2])
        if op.startswith('t_'):
            return fround(s, trig(op[2:], a))
    if s == 'R':
        if op == 'radd':
            return float(a[0] + a[1])
        if op == 'rsub':
            return float(a[0] - a[1])
        if op == 'rmul':
            return float(a[0] * a[1])
        if op == 'rdiv':
            return cfop('div', float(a[0]), float(a[1]), 64)
        if op == 'neg':
            return -a[0]
        if op == 'toreal':
            return float(a[0])
        if op == 'sqrt':
            return math.sqrt(a[0]) if a[0] >= 0 else NAN
        if op in ('rfloor', 'rceil', 'rtrunc', 'rround', 'rrint'):
            return crnd(op[1:], a[0])
        if op.startswith('t_'):
            return trig(op[2:], a)
    raise Unsupported('eval ' + op)


def crnd(op, x):
    if x != x or math.isinf(x):
        return x
    if op == 'floor':
        r = float(math.floor(x))
    elif op == 'ceil':
        r = float(math.ceil(x))
    elif op == 'trunc':
        r = float(math.trunc(x))
    elif op == 'round':
        r = float(math.floor(abs(x) + 0.5))
        if abs(x) + 0.5 != abs(x) + 0.5:
            r = x
        r = math.copysign(r, x)
    else:
        r = float(round(x))
    return math.copysign(r, x) if r == 0 else r


# ---------------------------------------------------------------- z3
class ToZ3:
    RM = None

    def __init__(self):
        self.memo = {}
        self.sides = {}       # id -> tuple of (side z3 constraints)
        self.RM = z3.RNE()
        self.F = {'F32': z3.Float32(), 'F64': z3.Float64()}
        self.PI = 3.14159265358979

    def const(self, v, sort):
        if sort == 'B':
            return z3.BoolVal(bool(v))
        if sort == 'R':
            return z3.RealVal(Fraction(v))
        if sort == 'I':
            return z3.IntVal(v)
        if sort in self.F:
            if v != v:
                return z3.fpNaN(self.F[sort])
            if math.isinf(v):
                return z3.fpInfinity(self.F[sort], v < 0)
            if v == 0:
                return z3.fpZero(self.F[sort], math.copysign(1, v) < 0)
            return z3.fpBVToFP(z3.BitVecVal(f32bits(v) if sort == 'F32' else f64bits(v), 32 if sort == 'F32' else 64),
                               self.F[sort])
        return z3.BitVecVal(v, sort[1])

    def tr(self, e):
        if e.id in self.memo:
            return self.memo[e.id]
        stack = [e]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, E) and a.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.memo[x.id] = self._tr1(x)
        return self.memo[e.id]

    def side(self, e):
        """side constraints (z3) needed by the definitional nodes under e"""
        if is_c(e):
            return ()
        r = self.sides.get(e.id)
        if r is not None and isinstance(r, frozenset):
            return r
        # iterative post-order union
        stack = [e]
        while stack:
            x = stack[-1]
            if isinstance(self.sides.get(x.id), frozenset):
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, E) and not isinstance(self.sides.get(a.id), frozenset)]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            s = frozenset()
            for a in x.args:
                if isinstance(a, E):
                    b = self.sides[a.id]
                    if b:
                        s = s | b if s else b
            own = self.sides.get(('own', x.id))
            if own:
                s = s | own
            self.sides[x.id] = s
        return self.sides[e.id]

    def _tr1(self, x):
        op = x.op
        s = x.sort
        if op == 'var':
            nm = x.args[0]
            if s == 'B':
                return z3.Bool(nm)
            if s == 'R':
                return z3.Real(nm)
            if s == 'I':
                return z3.Int(nm)
            if s in self.F:
                return z3.FP(nm, self.F[s])
            return z3.BitVec(nm, s[1])
        # sort of the operands
        def so(i):
            for a in (x.args[i],) + tuple(x.args):
                if isinstance(a, E):
                    return a.sort
        m = self.memo

        def A(i, sort=None):
            a = x.args[i]
            if isinstance(a, E):
                return m[a.id]
            return self.const(a, sort)
        if op == 'not':
            return z3.Not(A(0))
        if s == 'B' and op in ('and', 'or', 'xor'):
            a, b = A(0, 'B'), A(1, 'B')
            return z3.And(a, b) if op == 'and' else z3.Or(a, b) if op == 'or' else z3.Xor(a, b)
        if op == 'ite':
            return z3.If(A(0, 'B'), A(1, s), A(2, s))
        if s == 'B':
            srt = [a.sort for a in x.args if isinstance(a, E)]
            t = srt[0]
            if 'R' in srt:
                t = 'R'
            a, b = A(0, t), A(1, t)
            if op == 'eq':
                return a == b
            if op == 'lt':
                return a < b
            if op == 'le':
                return a <= b
            if op == 'slt':
                return a < b
            if op == 'sle':
                return a <= b
            if op == 'ult':
                return z3.ULT(a, b)
            if op == 'ule':
                return z3.ULE(a, b)
            if op == 'feq':
                return z3.fpEQ(a, b)
            if op == 'flt':
                return z3.fpLT(a, b)
            if op == 'fle':
                return z3.fpLEQ(a, b)
            if op == 'fuo':
                return z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if isinstance(s, tuple):
            n = s[1]
            if op == 'extract':
                return z3.Extract(x.args[1], x.args[2], A(0))
            if op == 'concat':
                return z3.Concat(A(0, ('V', x.args[2])), A(1, ('V', x.args[3])))
            if op == 'zext':
                return z3.ZeroExt(n - x.args[1], A(0))
            if op == 'sext':
                return z3.SignExt(n - x.args[1], A(0))
            if op == 'fbits':
                return z3.fpToIEEEBV(A(0))
            if op == 'ftosi':
                return z3.fpToSBV(z3.RTZ(), A(0), z3.BitVecSort(n))
            if op == 'ftoui':
                return z3.fpToUBV(z3.RTZ(), A(0), z3.BitVecSort(n))
            a, b = A(0, s), A(1, s)
            if op == 'add':
                return a + b
            if op == 'sub':
                return a - b
            if op == 'mul':
                return a * b
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return a << b
            if op == 'lshr':
                return z3.LShR(a, b)
            if op == 'ashr':
                return a >> b
            if op == 'udiv':
                return z3.UDiv(a, b)
            if op == 'sdiv':
                return a / b
            if op == 'urem':
                return z3.URem(a, b)
            if op == 'srem':
                return z3.SRem(a, b)
        if s == 'I':
            if op == 'trunci':
                a = A(0)
                lo = x.args[0].lo
                if lo is not None and lo >= 0:
                    return z3.ToInt(a)
                return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
            a, b = A(0, 'I'), A(1, 'I')
            if op == 'iadd':
                return a + b
            if op == 'isub':
                return a - b
            if op == 'imul':
                return a * b
            if op == 'ifmod':
                return a % b
            la = bounds(x.args[0], 'I')[0]
            if op in ('itdiv', 'itrem'):
                if la is not None and la >= 0:
                    return a / b if op == 'itdiv' else a % b
                if op == 'itdiv':
                    return z3.If(a >= 0, a / b, -((-a) / b))
                return z3.If(a >= 0, a % b, -((-a) % b))
        if s in self.F:
            F = self.F[s]
            if op == 'fadd':
                return z3.fpAdd(self.RM, A(0, s), A(1, s))
            if op == 'fsub':
                return z3.fpSub(self.RM, A(0, s), A(1, s))
            if op == 'fmul':
                return z3.fpMul(self.RM, A(0, s), A(1, s))
            if op == 'fdiv':
                return z3.fpDiv(self.RM, A(0, s), A(1, s))
            if op == 'fneg':
                return z3.fpNeg(A(0))
            if op == 'fabs':
                return z3.fpAbs(A(0))
            if op == 'fsqrt':
                return z3.fpSqrt(self.RM, A(0))
            if op == 'fcvt':
                return z3.fpFPToFP(self.RM, A(0), F)
            if op == 'sitof':
                return z3.fpSignedToFP(self.RM, A(0), F)
            if op == 'uitof':
                return z3.fpUnsignedToFP(self.RM, A(0), F)
            if op == 'bitsf':
                return z3.fpBVToFP(A(0), F)
            if op == 'ffma':
                return z3.fpFMA(self.RM, A(0, s), A(1, s), A(2, s))
            if op in ('ffloor', 'fceil', 'ftrunc', 'fround', 'frint'):
                rm = {'ffloor': z3.RTN(), 'fceil': z3.RTP(), 'ftrunc': z3.RTZ(), 'fround': z3.RNA(),
                      'frint': z3.RNE()}[op]
                return z3.fpRoundToIntegral(rm, A(0))
            if op.startswith('t_'):
                v = z3.FP('%s!%d' % (op, x.id), F)
                return v
        if s == 'R':
            if op == 'radd':
                return A(0, 'R') + A(1, 'R')
            if op == 'rsub':
                return A(0, 'R') - A(1, 'R')
            if op == 'rmul':
                return A(0, 'R') * A(1, 'R')
            if op == 'rdiv':
                a, b = A(0, 'R'), A(1, 'R')
                if is_c(x.args[1]):
                    return a / b
                # named quotient: q*b == a when b != 0 (b == 0 is excluded on the path)
                q = z3.Real('q!%d' % x.id)
                self.sides[('own', x.id)] = frozenset([z3.Implies(b != 0, q * b == a)])
                return q
            if op == 'neg':
                return -A(0)
            if op == 'toreal':
                return z3.ToReal(A(0))
            if op == 'rfloor':
                return z3.ToReal(z3.ToInt(A(0)))
            if op == 'rceil':
                return -z3.ToReal(z3.ToInt(-A(0)))
            if op == 'rtrunc':
                a = A(0)
                return z3.If(a >= 0, z3.ToReal(z3.ToInt(a)), -z3.ToReal(z3.ToInt(-a)))
            if op == 'rround':
                a = A(0)
                h = z3.RealVal('1/2')
                return z3.If(a >= 0, z3.ToReal(z3.ToInt(a + h)), -z3.ToReal(z3.ToInt(h - a)))
            if op == 'sqrt':
                a = A(0)
                v = z3.Real('sqrt!%d' % x.id)
                lo = x.args[0].lo
                if lo is not None and lo >= 0:
                    c = frozenset([v >= 0, v * v == a])
                else:
                    c = frozenset([z3.Implies(a >= 0, z3.And(v >= 0, v * v == a))])
                self.sides[('own', x.id)] = c
                return v
            if op in ('t_sin', 't_cos'):
                k = x.args[0].id
                c, sn = z3.Real('cos!%d' % k), z3.Real('sin!%d' % k)
                self.sides[('own', x.id)] = frozenset([c * c + sn * sn == 1])
                return sn if op == 't_sin' else c
            if op.startswith('t_'):
                v = z3.Real('%s!%d' % (op, x.id))
                cs = []
                pi = z3.RealVal('3.14159265358979')
                if op == 't_acos':
                    cs = [v >= 0, v <= pi]
                elif op == 't_asin' or op == 't_atan':
                    cs = [v >= -pi / 2, v <= pi / 2]
                elif op == 't_atan2':
                    cs = [v >= -pi, v <= pi]
                elif op in ('t_exp', 't_exp2'):
                    cs = [v > 0]
                elif op == 't_pow':
                    b = A(0, 'R')
                    cs = [z3.Implies(b > 0, v > 0)]
                if cs:
                    self.sides[('own', x.id)] = frozenset(cs)
                return v
        raise Unsupported('z3 ' + op)


_fv = {}


def fvars(e):
    """names of the free variables"""
    if is_c(e):
        return frozenset()
    r = _fv.get(e.id)
    if r is not None:
        return r
    stack = [e]
    while stack:
        x = stack[-1]
        if x.id in _fv:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, E) and a.id not in _fv]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if x.op == 'var':
            _fv[x.id] = frozenset((x.args[0],))
        else:
            s = frozenset()
            for a in x.args:
                if isinstance(a, E):
                    b = _fv[a.id]
                    if not b <= s:
                        s = s | b
            _fv[x.id] = s
    return _fv[e.id]


def minmax(x):
    """('min'|'max', p, q) when x selects the smaller/larger of p and q"""
    if is_c(x) or x.op != 'ite' or x.sort != 'R':
        return None
    c, t, e = x.args
    neg = False
    if is_c(c):
        return None
    if c.op == 'not':
        c, neg = c.args[0], True
    if is_c(c) or c.op not in ('lt', 'le'):
        return None
    p, q = c.args
    same = lambda u, v: u is v or (is_c(u) and is_c(v) and u == v)
    if neg:
        t, e = e, t
    if same(t, p) and same(e, q):
        return 'min', p, q
    if same(t, q) and same(e, p):
        return 'max', p, q
    return None


def spread_minmax(e, memo=None):
    """comparisons against a minimum or maximum as comparisons against its operands"""
    memo = {} if memo is None else memo

    def cmp(op, a, b, d=0):
        if d < 6:
            m = minmax(a)
            if m is not None:
                f = bor if m[0] == 'min' else band
                return f(cmp(op, m[1], b, d + 1), cmp(op, m[2], b, d + 1))
            m = minmax(b)
            if m is not None:
                f = band if m[0] == 'min' else bor
                return f(cmp(op, a, m[1], d + 1), cmp(op, a, m[2], d + 1))
        return rcmp(op, a, b)

    def go(x):
        if is_c(x):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op in ('lt', 'le') and any(isinstance(a, E) and a.sort == 'R' for a in x.args):
            r = cmp(x.op, *x.args)
        elif x.op == 'not':
            r = bnot(go(x.args[0]))
        elif x.op == 'and':
            r = band(go(x.args[0]), go(x.args[1]))
        elif x.op == 'or':
            r = bor(go(x.args[0]), go(x.args[1]))
        else:
            r = x
        memo[x.id] = r
        return r
    return go(e)
