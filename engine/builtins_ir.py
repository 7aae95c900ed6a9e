"""Models of the functions the code calls but whose bodies are not in the IR
(libc, libm, libstdc++ runtime, llvm intrinsics) and the sym_* harness API."""
import poly
import math, re
from expr import *
import expr as X
from symexec import PathEnd, Violation, Ptr, Fn, FBits, Comp, NULL, CONT, E, M64

BUILTINS = {}
PATTERNS = []


def B(*names, force=False):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        f.force = force
        return f
    return d


def P(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def nop(e, st, a, args, ty, name):
    return e.zero(ty) if ty[0] != 'void' else None


# ------------------------------------------------------------------ sym API
def _name(e, st, p):
    n = e.cstr(st, p).decode()
    k = st.names.get(n, 0)
    return n, k, '%s#%d' % (n, k)


def _commit(st, n, k):
    st.names[n] = k + 1


@B('sym_float', 'sym_double', force=True)
def sym_float(e, st, a, args, ty, name):
    n, k, nm = _name(e, st, a[0])
    lo, hi = a[1], a[2]
    w = ty[1]
    if not (is_c(lo) and is_c(hi)):
        raise Unsupported('symbolic range for sym_float')
    if e.asg is not None:
        _commit(st, n, k)
        v = e.asg.get(nm, 0.0 if lo <= 0 <= hi else lo)
        v = f32(v) if w == 32 else float(v)
        if not lo <= v <= hi:
            raise PathEnd('assume')
        return v
    if e.real:
        v = var(nm, 'R', float(lo), float(hi))
        c = band(rcmp_raw('le', float(lo), v), rcmp_raw('le', v, float(hi)))
    else:
        v = var(nm, 'F32' if w == 32 else 'F64')
        c = band(mk('fle', (lo, v), 'B'), mk('fle', (v, hi), 'B'))
    _commit(st, n, k)
    st.inputs.append((nm, v, 'f'))
    for x in ((c.args if c.op == 'and' else (c,)) if not is_c(c) else ()):
        st.pc.append(x)
        st.known[x.id] = 1
    e.declare(st, nm, float(lo), float(hi), 'f')
    if st.model is not None:
        st.model = dict(st.model)
        st.model[nm] = 0.0 if lo <= 0 <= hi else float(lo)
        st.memo = {}
    return v


def rcmp_raw(op, a, b):
    return mk(op, (a, b), 'B')


@B('sym_any_float', force=True)
def sym_any_float(e, st, a, args, ty, name):
    """any bit pattern (bit precise mode only)"""
    n, k, nm = _name(e, st, a[0])
    if e.asg is not None:
        _commit(st, n, k)
        return f32(e.asg.get(nm, 0.0))
    if e.real:
        raise Unsupported('sym_any_float in real mode')
    _commit(st, n, k)
    v = var(nm, 'F32')
    st.inputs.append((nm, v, 'f'))
    return v


def _symint(e, st, p, lo, hi, w):
    n, k, nm = _name(e, st, p)
    if e.asg is not None:
        _commit(st, n, k)
        v = int(e.asg.get(nm, 0 if lo <= 0 <= hi else lo))
        if not lo <= v <= hi:
            raise PathEnd('assume')
        return v & mask(w)
    _commit(st, n, k)
    if lo == hi:
        return lo & mask(w)
    if e.real:
        if hi >= 1 << (w - 1):
            raise Unsupported('unsigned full range in real mode')
        v = var(nm, 'I', lo, hi)
        cs = [rcmp_raw('le', lo, v), rcmp_raw('le', v, hi)]
    else:
        v = var(nm, ('V', w))
        if lo == -(1 << w - 1) and hi == (1 << w - 1) - 1 or lo == 0 and hi == mask(w):
            cs = []
        elif lo >= 0 and (hi & (hi + 1)) == 0:
            # low bits symbolic, high bits zero
            b = hi.bit_length()
            vv = var(nm, ('V', b))
            v = zext(vv, b, w) if b < w else vv
            cs = [] if lo == 0 else [bvcmp('ule', w, lo, v)]
        elif lo >= 0:
            cs = [bvcmp('ule', w, v, hi)] + ([] if lo == 0 else [bvcmp('ule', w, lo, v)])
        else:
            cs = [bvcmp('sle', w, lo & mask(w), v), bvcmp('sle', w, v, hi & mask(w))]
    st.inputs.append((nm, v, 'i%d' % w if lo < 0 else 'u%d' % w))
    for c in cs:
        if not is_c(c):
            st.pc.append(c)
            st.known[c.id] = 1
    e.declare(st, nm, lo, hi, 'i' if e.real else 'w%d' % w)
    if st.model is not None:
        st.model = dict(st.model)
        st.model[nm] = (0 if lo <= 0 <= hi else lo) & (mask(w) if not e.real else -1)
        st.memo = {}
    return v


@B('sym_int', force=True)
def sym_int(e, st, a, args, ty, name):
    return _symint(e, st, a[0], sgn(a[1], 32), sgn(a[2], 32), 32)


@B('sym_long', force=True)
def sym_long(e, st, a, args, ty, name):
    return _symint(e, st, a[0], sgn(a[1], 64), sgn(a[2], 64), 64)


@B('sym_uint', force=True)
def sym_uint(e, st, a, args, ty, name):
    return _symint(e, st, a[0], a[1], a[2], 32)


@B('sym_u8', force=True)
def sym_u8(e, st, a, args, ty, name):
    if e.real:
        n, k, nm = _name(e, st, a[0])
        v = _symint(e, st, a[0], 0, 255, 32)
        if is_c(v):
            return v & 255
        return e.truncv(st, v, 32, 8)
    return _symint(e, st, a[0], 0, 255, 8)


@B('sym_bool', force=True)
def sym_bool(e, st, a, args, ty, name):
    n, k, nm = _name(e, st, a[0])
    _commit(st, n, k)
    if e.asg is not None:
        return int(e.asg.get(nm, 0)) & 1
    v = var(nm, 'B')
    st.inputs.append((nm, v, 'b'))
    e.declare(st, nm, 0, 1, 'i')
    if st.model is not None:
        st.model = dict(st.model)
        st.model[nm] = 0
        st.memo = {}
    return v if ty[1] == 1 else e.b2i(v, ty[1])


@B('sym_choice', force=True)
def sym_choice(e, st, a, args, ty, name):
    """0..n-1, explored one path per value (case split by the executor)"""
    n, k, nm = _name(e, st, a[0])
    cnt = a[1]
    if e.asg is not None:
        _commit(st, n, k)
        v = int(e.asg.get(nm, 0))
        if not 0 <= v < cnt:
            raise PathEnd('assume')
        return v
    if nm in e.fixed:
        v = e.fixed[nm]
        if not 0 <= v < cnt:
            raise PathEnd('assume')
        _commit(st, n, k)
        st.inputs.append((nm, v, 'c'))
        return v
    # one boolean per value keeps the case split purely propositional
    v = None
    for i in range(cnt - 1):
        b = var('%s==%d' % (nm, i), 'B')
        kk = st.known.get(b.id)
        if kk is None:
            from symexec import NeedFork
            raise NeedFork(b)
        if kk:
            v = i
            break
    if v is None:
        v = cnt - 1
    _commit(st, n, k)
    st.inputs.append((nm, v, 'c'))
    return v


@B('sym_bytes', force=True)
def sym_bytes(e, st, a, args, ty, name):
    n0 = e.cstr(st, a[0]).decode()
    cnt = a[2]
    for i in range(cnt):
        k = st.names.get(n0, 0)
        v = _symint(e, st, a[0], 0, 255, 8)
        e.store(st, ('i', 8), v, e.padd(a[1], i))


@B('sym_assume', force=True)
def sym_assume(e, st, a, args, ty, name):
    c = a[0]
    if isinstance(c, E) and c.sort != 'B':
        c = rcmp('eq', c, 0) if e.real else bveq(c, 0, c.sort[1])
        c = bnot(c)
    e.add_pc(st, c)


@B('sym_assert', force=True)
def sym_assert(e, st, a, args, ty, name):
    aid = e.cstr(st, a[1]).decode()
    c = a[0]
    if isinstance(c, E) and c.sort != 'B':
        c = bnot(rcmp('eq', c, 0) if e.real else bveq(c, 0, c.sort[1]))
    e.do_assert(st, c, aid)


@B('sym_cut', force=True)
def sym_cut(e, st, a, args, ty, name):
    if e.real and isinstance(a[0], E) and e.asg is None:
        e.cut(a[0])


@B('sym_alias', force=True)
def sym_alias(e, st, a, args, ty, name):
    if e.real and isinstance(a[0], E) and e.asg is None:
        e.cut(a[0], True)


@B('sym_root', force=True)
def sym_root(e, st, a, args, ty, name):
    """hint: sqrt(k^2 x^2) is |k x|; used only where the normal forms agree"""
    if e.real and isinstance(a[0], E) and e.asg is None and a[0] not in e.roots:
        e.roots.append(a[0])


def find_root(e, st, x):
    import poly
    from fractions import Fraction
    nz = poly.Normaliser(st.known)
    try:
        n, d = nz.norm(x)
        for r in e.roots:
            rn, rd = nz.norm(r)
            r2, q2 = nz.reduce(nz.pmul(rn, rn), nz.pmul(rd, rd))
            A, Bq = nz.reduce(nz.pmul(n, q2), nz.pmul(d, r2))
            if len(A) != len(Bq) or not A:
                continue
            m = next(iter(A))
            if m not in Bq:
                continue
            k = A[m] / Bq[m]
            if k <= 0 or any(Bq.get(i, 0) * k != c for i, c in A.items()):
                continue
            s = Fraction(math.isqrt(k.numerator), math.isqrt(k.denominator))
            if s * s != k or Fraction(float(s)) != s:
                continue
            y = rop('mul', float(s), r) if s != 1 else r
            return rneg(y) if e.decide(st, rcmp('lt', r, 0.0)) else y
    except poly.TooBig:
        pass
    return None


@B('sym_reach', force=True)
def sym_reach(e, st, a, args, ty, name):
    st.reach.append(e.cstr(st, a[0]).decode())


@B('sym_out', 'sym_out_i', force=True)
def sym_out(e, st, a, args, ty, name):
    st.outs.append((e.cstr(st, a[0]).decode(), a[1]))


@B('sym_tol', force=True)
def sym_tol(e, st, a, args, ty, name):
    return a[0]


@B('sym_native', force=True)
def sym_native(e, st, a, args, ty, name):
    return 0


@B('sym_ite_f', force=True)
def sym_ite_f(e, st, a, args, ty, name):
    return e.select(st, a[0], ty, a[1], a[2])


@B('sym_concretize', force=True)
def sym_concretize(e, st, a, args, ty, name):
    v = a[0]
    if is_c(v):
        return v
    r = e.concretize(st, v, 600)
    return r & mask(32)


@B('sym_lock', force=True)
def sym_lock(e, st, a, args, ty, name):
    return None


@B('sym_no_fork_abs', force=True)
def sym_abs(e, st, a, args, ty, name):
    return e.fabs(st, a[0])


# ------------------------------------------------------------------ llvm.*
@P(r'llvm\.mem(cpy|move)\.')
def i_memcpy(e, st, a, args, ty, name):
    e.memcpy(st, a[0], a[1], a[2], True)


@P(r'llvm\.memset\.')
def i_memset(e, st, a, args, ty, name):
    e.memset(st, a[0], a[1], a[2])


@P(r'llvm\.(lifetime|dbg|invariant\.end|experimental\.noalias|donothing|prefetch|stackrestore)')
def i_nop(e, st, a, args, ty, name):
    return None


@P(r'llvm\.(invariant\.start|stacksave|launder\.invariant|strip\.invariant|ptr\.annotation)')
def i_ptr(e, st, a, args, ty, name):
    return a[0] if 'invariant.group' in name or 'annot' in name else NULL


@P(r'llvm\.assume')
def i_assume(e, st, a, args, ty, name):
    return None


@P(r'llvm\.expect\.')
def i_expect(e, st, a, args, ty, name):
    return a[0]


@P(r'llvm\.is\.constant')
def i_isconst(e, st, a, args, ty, name):
    return 0


@P(r'llvm\.objectsize')
def i_objsize(e, st, a, args, ty, name):
    return mask(64)


def vecmap(f):
    def g(e, st, a, args, ty, name):
        if ty[0] == 'v':
            et = e.m.resolve(ty[2])
            at = []
            for i, (t, o, b) in enumerate(args):
                at.append(t)
            return [f(e, st, [x[i] if isinstance(x, list) else x for x in a], args, et, name) for i in range(ty[1])]
        return f(e, st, a, args, ty, name)
    return g


@P(r'llvm\.fabs\.')
@vecmap
def i_fabs(e, st, a, args, ty, name):
    return e.fabs(st, a[0])


BUILTINS['fabsf'] = BUILTINS['fabs'] = i_fabs
i_fabs.force = False


def f_sqrt(e, st, a, args, ty, name):
    x = a[0]
    w = ty[1]
    if is_c(x):
        if x < 0:
            return NAN
        r = math.sqrt(x) if not math.isinf(x) and x == x else x
        return f32(r) if w == 32 else r
    if e.real:
        if e.roots and e.asg is None:
            r = find_root(e, st, x)
            if r is not None:
                return r
        if x.lo is None or x.lo < 0:
            neg = rcmp('lt', x, 0.0)
            if not e.must(st, bnot(neg)):
                if e.decide(st, neg):
                    return NAN
        # sqrt(y*y) = |y|
        if x.op == 'rmul' and x.args[0] is x.args[1]:
            return e.fabs(st, x.args[0])
        lo = 0.0 if x.lo is None or x.lo < 0 else math.sqrt(x.lo) * (1 - 1e-12)
        hi = None if x.hi is None else math.sqrt(max(0.0, x.hi)) * (1 + 1e-12)
        return mk('sqrt', (x,), 'R', lo, hi)
    return mk('fsqrt', (x,), x.sort)


PATTERNS.append((re.compile(r'(llvm\.sqrt\.|sqrtf?$)'), vecmap(f_sqrt)))


def f_round(kind):
    @vecmap
    def g(e, st, a, args, ty, name):
        x = a[0]
        if is_c(x):
            return X.crnd(kind, x)
        if e.real:
            if x.op == 'toreal':
                return x
            if e.fork_round and kind in ('floor', 'ceil', 'trunc'):
                k = e.pin_round(st, kind, x)
                if k is not None:
                    return k
            lo = None if x.lo is None else float(math.floor(x.lo))
            hi = None if x.hi is None else float(math.ceil(x.hi))
            return mk('r' + kind, (x,), 'R', lo, hi)
        return mk('f' + kind, (x,), x.sort)
    return g


for _k, _rx in (('floor', r'(llvm\.floor\.|floorf?$)'), ('ceil', r'(llvm\.ceil\.|ceilf?$)'),
                ('trunc', r'(llvm\.trunc\.|truncf?$)'), ('round', r'(llvm\.round\.|roundf?$)'),
                ('rint', r'(llvm\.(rint|nearbyint|roundeven)\.|rintf?$|nearbyintf?$)')):
    PATTERNS.append((re.compile(_rx), f_round(_k)))


@P(r'llvm\.(fmuladd|fma)\.')
@vecmap
def i_fma(e, st, a, args, ty, name):
    if all(is_c(x) for x in a):
        t = cfop('mul', a[0], a[1], ty[1] if 'muladd' in name else 64)
        return cfop('add', t, a[2], ty[1])
    if e.real or 'muladd' in name:
        return e.fop(st, 'add', ty, e.fop(st, 'mul', ty, a[0], a[1]), a[2])
    return mk('ffma', tuple(a), 'F32' if ty[1] == 32 else 'F64')


@P(r'(llvm\.(minnum|maxnum|minimum|maximum)\.|fminf?$|fmaxf?$)')
@vecmap
def i_fmin(e, st, a, args, ty, name):
    x, y = a
    mn = 'min' in name
    if is_c(x) and x != x:
        return y
    if is_c(y) and y != y:
        return x
    if is_c(x) and is_c(y):
        return min(x, y) if mn else max(x, y)
    c = e.fcmp(st, 'olt', ty, x, y)
    if e.real:
        return e.select(st, c, ty, x, y) if mn else e.select(st, c, ty, y, x)
    r = ite(c, x, y, x.sort if not is_c(x) else y.sort) if mn else ite(c, y, x, x.sort if not is_c(x) else y.sort)
    nx = e.fnan(x)
    ny = e.fnan(y)
    s = x.sort if not is_c(x) else y.sort
    r = ite(ny, x, r, s)
    return ite(nx, y, r, s)


@P(r'(llvm\.copysign\.|copysignf?$)')
@vecmap
def i_copysign(e, st, a, args, ty, name):
    x, y = a
    if is_c(x) and is_c(y):
        return math.copysign(x, y)
    m = e.fabs(st, x)
    if e.real:
        if is_c(y):
            return m if math.copysign(1, y) > 0 else e.fneg(m)
        return e.select(st, rcmp('lt', y, 0.0), ty, e.fneg(m), m)
    raise Unsupported('copysign')


@P(r'llvm\.is\.fpclass')
def i_fpclass(e, st, a, args, ty, name):
    x, msk = a
    if is_c(x):
        if x != x:
            return int(bool(msk & 3))
        if math.isinf(x):
            return int(bool(msk & (0x200 if x > 0 else 4)))
        if x == 0:
            return int(bool(msk & (0x40 if math.copysign(1, x) > 0 else 0x20)))
        return int(bool(msk & (0x100 if x > 0 else 8)))
    if e.real:
        if msk & 0x1f8 == 0:
            return 0
        if msk & 0x1f8 == 0x1f8:
            return 1
    elif msk == 3:
        return e.fnan(x)
    elif msk == 0x3fc:
        return bnot(e.fnan(x))
    elif msk == 0x204:
        return band(bnot(e.fnan(x)), mk('feq', (mk('fabs', (x,), x.sort), INF), 'B'))
    elif msk == 0x1f8:
        return mk('flt', (mk('fabs', (x,), x.sort), INF), 'B')
    raise Unsupported('fpclass %x' % msk)


@P(r'llvm\.(u|s)(min|max)\.')
@vecmap
def i_minmax(e, st, a, args, ty, name):
    m = re.match(r'llvm\.(u|s)(min|max)', name)
    c = e.icmp(st, m.group(1) + 'lt', ty, a[0], a[1])
    x, y = (a[0], a[1]) if m.group(2) == 'min' else (a[1], a[0])
    r = e.select(st, c, ty, x, y)
    return r


@P(r'llvm\.abs\.')
@vecmap
def i_abs(e, st, a, args, ty, name):
    x, n = a[0], ty[1]
    if is_c(x):
        return abs(sgn(x, n)) & mask(n)
    if e.real:
        lo, hi = x.lo, x.hi
        if lo is not None and lo >= 0:
            return x
        r = ite(rcmp('lt', x, 0), iop('sub', 0, x), x, 'I')
        if not is_c(r) and r.op == 'ite':
            r.lo = 0
            r.hi = None if lo is None or hi is None else max(abs(lo), abs(hi))
        return r
    return ite(bvcmp('slt', n, x, 0), bvop('sub', n, 0, x), x, ('V', n))


@P(r'llvm\.(uadd|sadd|usub|ssub|umul|smul)\.with\.overflow')
def i_ovf(e, st, a, args, ty, name):
    m = re.match(r'llvm\.(u|s)(add|sub|mul)', name)
    n = args[0][0][1]
    op = m.group(2)
    x, y = a
    if is_c(x) and is_c(y):
        if m.group(1) == 's':
            x, y = sgn(x, n), sgn(y, n)
        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
        v = r & mask(n)
        return [v, int((sgn(v, n) if m.group(1) == 's' else v) != r)]
    if e.real:
        # must not wrap
        if m.group(1) == 's':
            x, y = e.sv(x, n), e.sv(y, n)
            r = iop(op, x, y)
            return [e.chk(st, r, n), 0]
        x, y = e.unsignedv(st, x, n), e.unsignedv(st, y, n)
        r = iop(op, x, y)
        if is_c(r):
            return [r & mask(n), int(not 0 <= r <= mask(n))]
        if e.must(st, band(rcmp('le', 0, r), rcmp('lt', r, 1 << (n - 1)))):
            return [r, 0]
        raise Unsupported('overflow intrinsic in real mode')
    w = n + 1 if op != 'mul' else 2 * n
    ext = zext if m.group(1) == 'u' else sext
    r = bvop(op, w, ext(x, n, w), ext(y, n, w))
    v = bvop(op, n, x, y)
    return [v, bnot(bveq(r, ext(v, n, w), w))]


@P(r'llvm\.(usub|uadd)\.sat')
@vecmap
def i_sat(e, st, a, args, ty, name):
    n = ty[1]
    x, y = a
    if 'usub' in name:
        c = e.icmp(st, 'ult', ty, x, y)
        if is_c(c):
            return 0 if c else e.binop(st, 'sub', ty, x, y, ())
        if e.real:
            return 0 if e.decide(st, c) else e.binop(st, 'sub', ty, x, y, ())
        return ite(c, 0, bvop('sub', n, x, y), ('V', n))
    if is_c(x) and is_c(y):
        return min(x + y, mask(n))
    raise Unsupported('uadd.sat')


@P(r'llvm\.ct(pop|lz|tz)\.')
def i_ct(e, st, a, args, ty, name):
    x, n = a[0], ty[1]
    if not is_c(x):
        if not e.real and n <= 64:
            if 'ctpop' in name:
                r = 0
                for i in range(n):
                    r = bvop('add', n, r, zext(extract(x, i, i, n), 1, n))
                return r
            r = n
            rng = range(n) if 'ctlz' in name else range(n - 1, -1, -1)
            for i in rng:
                r = ite(bveq(extract(x, i, i, n), 1, 1), (n - 1 - i) if 'ctlz' in name else i, r, ('V', n))
            return r
        x = e.concretize(st, x, 600) & mask(n)
    if 'ctpop' in name:
        return bin(x).count('1')
    if x == 0:
        return n
    return n - x.bit_length() if 'ctlz' in name else (x & -x).bit_length() - 1


@P(r'llvm\.bswap\.')
def i_bswap(e, st, a, args, ty, name):
    x, n = a[0], ty[1]
    if is_c(x):
        return int.from_bytes(x.to_bytes(n // 8, 'little'), 'big')
    if e.real:
        r = 0
        u = e.unsignedv(st, x, n)
        for i in range(n // 8):
            b = iop('fmod', iop('tdiv', u, 1 << 8 * i), 256)
            r = iop('add', r, iop('mul', b, 1 << (n - 8 - 8 * i)))
        return e.truncv(st, r, n + 1, n)
    r = extract(x, 7, 0, n)
    w = 8
    for i in range(1, n // 8):
        r = concat(r, extract(x, 8 * i + 7, 8 * i, n), w, 8)
        w += 8
    return r


@P(r'llvm\.fsh[lr]\.')
def i_fsh(e, st, a, args, ty, name):
    n = ty[1]
    s = a[2]
    if not is_c(s):
        raise Unsupported('fshl')
    s %= n
    if 'fshr' in name:
        s = (n - s) % n
        if s == 0:
            return a[1]
    if s == 0:
        return a[0]
    if e.real and not (is_c(a[0]) and is_c(a[1])):
        raise Unsupported('fsh real')
    return bvop('or', n, bvop('shl', n, a[0], s), bvop('lshr', n, a[1], n - s))


@P(r'llvm\.(trap|debugtrap)')
def i_trap(e, st, a, args, ty, name):
    raise PathEnd('trap')


@P(r'llvm\.vector\.reduce\.')
def i_vred(e, st, a, args, ty, name):
    k = name.split('.')[3]
    v = a[-1]
    t = args[-1][0]
    et = e.m.resolve(t[2])
    r = v[0]
    for x in v[1:]:
        if k in ('fadd', 'fmul'):
            r = e.fop(st, k[1:], et, r, x)
        elif k in ('add', 'mul', 'and', 'or', 'xor'):
            r = e.binop(st, k, et, r, x, ())
        else:
            raise Unsupported(name)
    if k in ('fadd', 'fmul'):
        r = e.fop(st, k[1:], et, a[0], r)
    return r


@B('llvm.va_start', 'llvm.va_end')
def i_va(e, st, a, args, ty, name):
    raise Unsupported('varargs body')


# ------------------------------------------------------------------ libm
def canon(e, x):
    """one representative per polynomial value, so that equal arguments give the same application"""
    if is_c(x):
        return x
    nz = e.__dict__.setdefault('_canon_nz', poly.Normaliser({}))
    tab = e.__dict__.setdefault('_canon_tab', {})
    try:
        n, d = nz.norm(x)
    except poly.TooBig:
        return x
    if d == poly.ONE and (not n or (len(n) == 1 and () in n)):
        v = float(n[()]) if n else 0.0
        return v if not n or v == n[()] else x
    k = (frozenset(n.items()), frozenset(d.items()))
    return tab.setdefault(k, x)


def libm(op, e, st, a, ty):
    w = ty[1]
    if e.real:
        a = [canon(e, x) for x in a]
    if all(is_c(x) for x in a):
        r = X.trig(op, a)
        return f32(r) if w == 32 else r
    lo = hi = None
    pi = math.pi
    if op in ('sin', 'cos'):
        lo, hi = -1.0, 1.0
        x = a[0]
        if op == 'cos' and not is_c(x) and x.op in ('t_acos',):
            return x.args[0]
        if op == 'sin' and not is_c(x) and x.op in ('t_asin',):
            return x.args[0]
    elif op == 'acos':
        lo, hi = 0.0, pi
    elif op in ('asin', 'atan'):
        lo, hi = -pi / 2, pi / 2
    elif op == 'atan2':
        lo, hi = -pi, pi
    elif op in ('exp', 'exp2'):
        lo = 0.0
        x = a[0]
        try:
            if x.lo is not None:
                lo = max(0.0, math.exp(x.lo) * (1 - 1e-9))
            if x.hi is not None:
                hi = math.exp(x.hi) * (1 + 1e-9)
        except OverflowError:
            pass
    elif op == 'pow':
        if e.real and is_c(a[1]) and a[1] == int(a[1]) and 0 < a[1] <= 8:
            r = a[0]
            for _ in range(int(a[1]) - 1):
                r = rop('mul', r, a[0])
            return r
        b, p = a
        bl, bh = bounds(b, 'R')
        pl, ph = bounds(p, 'R')
        if bl is not None and bl >= 0:
            lo = 0.0
            try:
                if bh is not None and pl is not None and ph is not None and (bl > 0 or pl >= 0):
                    v = [math.pow(x, y) for x in (bl, bh) for y in (pl, ph)]
                    lo, hi = min(v) * (1 - 1e-9), max(v) * (1 + 1e-9)
            except (OverflowError, ValueError):
                pass
    elif op in ('log', 'log2', 'log10'):
        x = a[0]
        if e.real and not (x.lo is not None and x.lo > 0):
            if not e.decide(st, rcmp('lt', 0.0, x)):
                return -INF if e.decide(st, rcmp('eq', x, 0.0)) else NAN
    elif op in ('acos', 'asin'):
        pass
    if op in ('acos', 'asin') and e.real:
        x = a[0]
        if not (x.lo is not None and x.lo >= -1 and x.hi is not None and x.hi <= 1):
            ok = band(rcmp('le', -1.0, x), rcmp('le', x, 1.0))
            if not e.must(st, ok) and not e.decide(st, ok):
                return NAN
    if op == 'tan' and e.real:
        s = libm('sin', e, st, a, ty)
        c = libm('cos', e, st, a, ty)
        return e.fop(st, 'div', ty, s, c)
    if not e.real:
        e.R.notes.add('libm %s modelled as an uninterpreted value' % op)
        s = 'F32' if w == 32 else 'F64'
        v = mk('t_' + op, tuple(a), s)
        if lo is not None:
            c = mk('fle', (lo if lo is not None else -INF, v), 'B')
            if c.id not in st.known:
                st.pc.append(c)
                st.known[c.id] = 1
        if hi is not None:
            c = mk('fle', (v, f32(hi) if w == 32 else hi), 'B')
            if c.id not in st.known:
                st.pc.append(c)
                st.known[c.id] = 1
        return v
    e.R.notes.add('libm %s modelled by range/identity axioms' % op)
    v = mk('t_' + op, tuple(a), 'R', lo, hi)
    for c in ((rcmp_raw('le', lo, v) if lo is not None else None), (rcmp_raw('le', v, hi) if hi is not None else None)):
        if c is not None and c.id not in st.known:
            st.pc.append(c)
            st.known[c.id] = 1
    return v


for _f in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'exp', 'exp2', 'log', 'log2', 'log10', 'pow'):
    def _mkf(op):
        def g(e, st, a, args, ty, name):
            return libm(op, e, st, a, ty)
        return vecmap(g)
    PATTERNS.append((re.compile(r'(llvm\.%s\.|%sf?$)' % (_f, _f)), _mkf(_f)))


@B('fmodf', 'fmod')
def l_fmod(e, st, a, args, ty, name):
    x, y = a
    if is_c(x) and is_c(y):
        r = math.fmod(x, y) if y != 0 and not math.isinf(x) else NAN
        return f32(r) if ty[1] == 32 else r
    if not e.real:
        raise Unsupported('fmod')
    q = e.fop(st, 'div', ty, x, y)
    t = mk('rtrunc', (q,), 'R', None, None) if not is_c(q) else float(math.trunc(q))
    return e.fop(st, 'sub', ty, x, e.fop(st, 'mul', ty, t, y))


# ------------------------------------------------------------------ allocation
def alloc(e, st, n, kind, fill=None):
    if not is_c(n):
        n = e.concretize(st, n, 300)
    if n > 1 << 31:
        raise PathEnd('throw', 'allocation of %d bytes' % n)
    o = e.new_obj(st, n, 'heap', kind, fill)
    return Ptr(o.id, 0)


@B('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def l_malloc(e, st, a, args, ty, name):
    return alloc(e, st, a[0], name)


@B('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def l_malloc2(e, st, a, args, ty, name):
    return alloc(e, st, a[0], name)


@B('calloc')
def l_calloc(e, st, a, args, ty, name):
    x = e.concretize(st, a[0], 64)
    y = e.concretize(st, a[1], 64)
    return alloc(e, st, x * y, name, 0)


@B('realloc')
def l_realloc(e, st, a, args, ty, name):
    n = e.concretize(st, a[1], 64)
    p = alloc(e, st, n, name)
    if a[0].obj:
        old = st.mem[a[0].obj]
        e.memcpy(st, p, a[0], min(n, old.size))
        e.free(st, a[0], 'realloc')
    return p


@B('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def l_free(e, st, a, args, ty, name):
    e.free(st, a[0], name)


# ------------------------------------------------------------------ mem/str
@B('memcpy', 'memmove')
def l_memcpy(e, st, a, args, ty, name):
    e.memcpy(st, a[0], a[1], a[2], True)
    return a[0]


@B('memset')
def l_memset(e, st, a, args, ty, name):
    e.memset(st, a[0], e.truncv(st, a[1], 32, 8) if not is_c(a[1]) else a[1] & 255, a[2])
    return a[0]


def u8(e, st, p, i):
    v = e.load(st, ('i', 8), e.padd(p, i))
    if e.real and not is_c(v):
        return e.unsignedv(st, v, 8)
    return v


def beq(e, x, y):
    return rcmp('eq', x, y) if e.real else bveq(x, y, 8)


@B('memcmp', 'bcmp', 'strcmp', 'strncmp', 'strcasecmp')
def l_memcmp(e, st, a, args, ty, name):
    n = e.concretize(st, a[2], 64) if len(a) > 2 else 1 << 16
    s = name.startswith('str')
    for i in range(n):
        x, y = u8(e, st, a[0], i), u8(e, st, a[1], i)
        if not e.decide(st, beq(e, x, y)):
            if is_c(x) and is_c(y):
                lt = x < y
            else:
                lt = e.decide(st, rcmp('lt', x, y) if e.real else bvcmp('ult', 8, x, y))
            return mask(32) if lt else 1
        if s and e.decide(st, beq(e, x, 0)):
            return 0
    return 0


@B('strlen')
def l_strlen(e, st, a, args, ty, name):
    for i in range(1 << 16):
        if e.decide(st, beq(e, u8(e, st, a[0], i), 0)):
            return i
    raise Unsupported('strlen')


@B('strcpy', 'strcat', 'strncpy')
def l_strcpy(e, st, a, args, ty, name):
    base = 0
    if name == 'strcat':
        base = l_strlen(e, st, a, args, ty, name)
    vals = []
    lim = e.concretize(st, a[2], 64) if name == 'strncpy' else 1 << 16
    i = 0
    while i < lim:
        v = e.load(st, ('i', 8), e.padd(a[1], i))
        vals.append(v)
        i += 1
        if e.decide(st, beq(e, v if not (e.real and not is_c(v)) else v, 0)):
            break
    while name == 'strncpy' and len(vals) < lim:
        vals.append(0)
    for i, v in enumerate(vals):
        e.store(st, ('i', 8), v, e.padd(a[0], base + i))
    return a[0]


@B('strrchr', 'strchr', 'memchr')
def l_strchr(e, st, a, args, ty, name):
    c = a[1]
    if not is_c(c):
        raise Unsupported('strchr')
    c &= 255
    last = None
    n = e.concretize(st, a[2], 64) if name == 'memchr' else 1 << 16
    for i in range(n):
        v = u8(e, st, a[0], i)
        if e.decide(st, beq(e, v, c)):
            last = i
            if name != 'strrchr':
                return e.padd(a[0], i)
        if name != 'memchr' and e.decide(st, beq(e, v, 0)):
            break
    return NULL if last is None else e.padd(a[0], last)


@B('strtol', '__isoc23_strtol', 'atoi', 'strtoul', '__isoc23_strtoul')
def l_strtol(e, st, a, args, ty, name):
    base = a[2] if len(a) > 2 else 10
    if base != 10:
        raise Unsupported('strtol base')
    i = 0
    ws = (32, 9, 10, 11, 12, 13)

    def ch(i):
        v = u8(e, st, a[0], i)
        return v if is_c(v) else e.concretize(st, v, 256)
    while ch(i) in ws:
        i += 1
    neg = False
    if ch(i) in (43, 45):
        neg = ch(i) == 45
        i += 1
    v, d = 0, 0
    while 48 <= ch(i) <= 57:
        v = v * 10 + ch(i) - 48
        i += 1
        d += 1
    end = i if d else 0
    if len(a) > 2 and not (isinstance(a[1], Ptr) and a[1].obj == 0):
        e.store(st, ('p',), e.padd(a[0], end), a[1])
    if neg:
        v = -v
    v = max(-(1 << 63), min((1 << 63) - 1, v))
    return v & mask(ty[1])


@B('strtof', 'strtod', 'atof')
def l_strtof(e, st, a, args, ty, name):
    s = bytearray()

    def ch(i):
        v = u8(e, st, a[0], i)
        return v if is_c(v) else e.concretize(st, v, 256)
    for i in range(64):
        c = ch(i)
        if c == 0:
            break
        s.append(c)
    m = re.match(rb'[ \t\n\r\v\f]*([+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?))', bytes(s))
    v = float(m.group(1)) if m else 0.0
    if len(a) > 1 and not (isinstance(a[1], Ptr) and a[1].obj == 0):
        e.store(st, ('p',), e.padd(a[0], m.end() if m else 0), a[1])
    return f32(v) if ty[1] == 32 else v


def _ctype(f):
    def g(e, st, a, args, ty, name):
        v = a[0]
        if not is_c(v):
            v = e.concretize(st, v, 300)
        return f(v)
    return g


BUILTINS['isdigit'] = _ctype(lambda v: int(48 <= v <= 57))
BUILTINS['isspace'] = _ctype(lambda v: int(v in (32, 9, 10, 11, 12, 13)))
BUILTINS['isalpha'] = _ctype(lambda v: int(chr(v & 255).isalpha() and v < 128))
BUILTINS['tolower'] = _ctype(lambda v: v + 32 if 65 <= v <= 90 else v)
BUILTINS['toupper'] = _ctype(lambda v: v - 32 if 97 <= v <= 122 else v)


# ------------------------------------------------------------------ formatted output
@B('snprintf', 'sprintf')
def l_snprintf(e, st, a, args, ty, name):
    if name == 'snprintf':
        dst, lim, fmt, va = a[0], e.concretize(st, a[1], 64), a[2], a[3:]
        types = [t for t, _, _ in args[3:]]
    else:
        dst, lim, fmt, va = a[0], 1 << 30, a[1], a[2:]
        types = [t for t, _, _ in args[2:]]
    f = e.cstr(st, fmt).decode('latin1')
    out = bytearray()
    k = 0
    i = 0
    while i < len(f):
        c = f[i]
        if c != '%':
            out.append(ord(c) & 255)
            i += 1
            continue
        m = re.match(r'%([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j)?([diuxXcsfgeFGp%])', f[i:])
        if not m:
            raise Unsupported('format ' + f)
        i += m.end()
        if m.group(5) == '%':
            out.append(37)
            continue
        if '*' in (m.group(2), m.group(3)):
            raise Unsupported('format *')
        v = va[k]
        t = types[k]
        k += 1
        spec = '%' + (m.group(1) or '') + (m.group(2) or '') + ('.' + m.group(3) if m.group(3) else '')
        cv = m.group(5)
        if cv == 's':
            s = e.cstr(st, v)
            out += (spec + 's').encode() % s
        else:
            if not is_c(v):
                v = e.concretize(st, v, 400) & mask(t[1]) if t[0] == 'i' else None
                if v is None:
                    raise Unsupported('format of symbolic float')
            if cv in 'di':
                v = sgn(v & mask(t[1]), t[1])
            if cv == 'u':
                cv = 'd'
            if cv == 'c':
                v &= 255
            out += ((spec + cv) % v).encode('latin1')
    w = bytes(out[:max(0, lim - 1)]) + b'\0' if lim > 0 else b''
    for j, b in enumerate(w):
        e.store(st, ('i', 8), b, e.padd(dst, j))
    return len(out)


@B('printf', 'puts', 'fprintf', 'putchar', 'fputs', 'fputc', 'fflush', 'perror', 'vfprintf', 'vprintf', 'fwrite_unlocked')
def l_printf(e, st, a, args, ty, name):
    return 0


# ------------------------------------------------------------------ C++ runtime
@B('__cxa_atexit', '__cxa_guard_abort', '__cxa_thread_atexit')
def l_atexit(e, st, a, args, ty, name):
    return 0 if ty[0] != 'void' else None


@B('__cxa_guard_acquire')
def l_guard(e, st, a, args, ty, name):
    v = e.load(st, ('i', 8), a[0])
    return int(v == 0)


@B('__cxa_guard_release')
def l_guardr(e, st, a, args, ty, name):
    e.store(st, ('i', 8), 1, a[0])


@P(r'(__cxa_throw$|__cxa_rethrow$|_ZSt\d+__throw_|_ZSt9terminatev$|__cxa_bad_|__assert_fail$|abort$|__cxa_pure_virtual$)')
def l_throw(e, st, a, args, ty, name):
    raise PathEnd('throw', name)


@B('__cxa_allocate_exception')
def l_exc(e, st, a, args, ty, name):
    return alloc(e, st, a[0], name)


@B('exit', '_exit')
def l_exit(e, st, a, args, ty, name):
    raise PathEnd('exit')


@P(r'_ZNK?St9exception|_ZNSt1\d[a-z_]+_error|_ZNSt12out_of_range')
def l_excn(e, st, a, args, ty, name):
    return nop(e, st, a, args, ty, name)


def console(e, st, a, args, ty, name):
    k = re.match(r'_ZNK?7Console(\d+)(\w+?)E', name)
    if name.startswith('_ZN7Console8critical'):
        if e.hooks.get('critical') != 'continue':
            raise PathEnd('critical')
    return nop(e, st, a, args, ty, name)


console.force = True
PATTERNS.append((re.compile(r'_ZNK?7Console'), console))


@P(r'_ZNSt8ios_base|_ZNSt6localeD|_ZNSolsE|_ZNSo|_ZStls|_ZSt4endl|_ZSt16__ostream_insert|_ZNSt7__cxx11(18|19)basic_')
def l_ios(e, st, a, args, ty, name):
    if name.startswith('_ZNSo') or name.startswith('_ZStls') or name.startswith('_ZSt16'):
        return a[0]
    return nop(e, st, a, args, ty, name)


@B('pthread_mutex_lock', 'pthread_mutex_trylock')
def l_lock(e, st, a, args, ty, name):
    k = (a[0].obj, a[0].off)
    if k in st.locks:
        if name.endswith('trylock'):
            return 16
        raise Violation('deadlock', 'mutex locked twice')
    st.locks.append(k)
    return 0


@B('pthread_mutex_unlock')
def l_unlock(e, st, a, args, ty, name):
    k = (a[0].obj, a[0].off)
    if k in st.locks:
        st.locks.remove(k)
    else:
        raise Violation('deadlock', 'unlock of a mutex that is not held')
    return 0


@B('pthread_mutex_init', 'pthread_mutex_destroy', '__pthread_key_create', 'nanosleep', 'usleep', 'srand')
def l_zero(e, st, a, args, ty, name):
    return 0 if ty[0] != 'void' else None


@B('time', 'clock', '_ZNSt6chrono3_V212steady_clock3nowEv', '_ZNSt6chrono3_V212system_clock3nowEv')
def l_time(e, st, a, args, ty, name):
    return 1000


@B('rand', 'random')
def l_rand(e, st, a, args, ty, name):
    k = st.names.get('rand', 0)
    st.names['rand'] = k + 1
    nm = 'rand#%d' % k
    if e.asg is not None:
        return int(e.asg.get(nm, 0))
    if e.real:
        v = var(nm, 'I', 0, 0x7fffffff)
        cs = [rcmp_raw('le', 0, v), rcmp_raw('le', v, 0x7fffffff)]
    else:
        v = zext(var(nm, ('V', 31)), 31, 32)
        cs = []
    st.inputs.append((nm, v, 'u32'))
    for c in cs:
        st.pc.append(c)
        st.known[c.id] = 1
    st.model = dict(st.model)
    st.model[nm] = 0
    st.memo = {}
    return v


PRIMES = [2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273]


@B('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def l_nextbkt(e, st, a, args, ty, name):
    n = e.concretize(st, a[1], 64)
    for p in PRIMES:
        if p >= n:
            break
    # _M_next_resize = floor(p * max_load)
    e.store(st, ('i', 64), p, e.padd(a[0], 8))
    return p


@B('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def l_rehash(e, st, a, args, ty, name):
    nb, ne, ni = a[1], a[2], a[3]
    for x in (nb, ne, ni):
        if not is_c(x):
            raise Unsupported('rehash')
    if ne + ni > nb or nb == 1 and ne + ni >= 1:
        want = max(ne + ni + 1, nb * 2, 13)
        for p in PRIMES:
            if p >= want:
                break
        return [1, p]
    return [0, 0]


@B('_ZSt11_Hash_bytesPKvmm')
def l_hash(e, st, a, args, ty, name):
    n = e.concretize(st, a[1], 64)
    h = 0xcbf29ce484222325
    for i in range(n):
        v = u8(e, st, a[0], i)
        if not is_c(v):
            v = e.concretize(st, v, 256)
        h = ((h ^ v) * 0x100000001b3) & M64
    return h


def _rb_incr(e, st, p, fwd):
    """std::_Rb_tree_increment/decrement on node pointers: color@0 parent@8 left@16 right@24"""
    def ld(p, o):
        return e.load(st, ('p',), e.padd(p, o))

    def isnull(p):
        return isinstance(p, Ptr) and p.obj == 0

    def same(p, q):
        return p.obj == q.obj and p.off == q.off
    R, L = (24, 16) if fwd else (16, 24)
    x = p
    if not fwd:
        col = e.load(st, ('i', 32), x)
        par = ld(x, 8)
        if col == 0 and not isnull(par) and same(ld(par, 8), x):
            return ld(x, 24)
    if not isnull(ld(x, R)):
        x = ld(x, R)
        while not isnull(ld(x, L)):
            x = ld(x, L)
        return x
    y = ld(x, 8)
    while same(x, ld(y, R)):
        x = y
        y = ld(y, 8)
    if fwd:
        if not same(ld(x, R), y):
            x = y
        return x
    return y


@P(r'_ZSt18_Rb_tree_incrementP')
def l_rbinc(e, st, a, args, ty, name):
    return _rb_incr(e, st, a[0], True)


@P(r'_ZSt18_Rb_tree_decrementP')
def l_rbdec(e, st, a, args, ty, name):
    return _rb_incr(e, st, a[0], False)


@P(r'_ZSt29_Rb_tree_insert_and_rebalance')
def l_rbins(e, st, a, args, ty, name):
    """unbalanced insertion keeps the order semantics"""
    left, x, p, h = a

    def ld(p, o):
        return e.load(st, ('p',), e.padd(p, o))

    def sp(v, p, o):
        e.store(st, ('p',), v, e.padd(p, o))

    def same(p, q):
        return p.obj == q.obj and p.off == q.off
    left = e.decide(st, left) if not is_c(left) else left
    sp(p, x, 8)
    sp(NULL, x, 16)
    sp(NULL, x, 24)
    e.store(st, ('i', 32), 1, x)
    if left:
        sp(x, p, 16)
        if same(p, h):
            sp(x, h, 8)
            sp(x, h, 24)
        elif same(p, ld(h, 16)):
            sp(x, h, 16)
    else:
        sp(x, p, 24)
        if same(p, ld(h, 24)):
            sp(x, h, 24)


@B('__errno_location')
def l_errno(e, st, a, args, ty, name):
    o = st.ghost.get('errno')
    if o is None:
        o = e.new_obj(st, 4, 'global', 'errno', 0).id
        st.ghost['errno'] = o
    return Ptr(o, 0)


@B('strerror')
def l_strerror(e, st, a, args, ty, name):
    o = e.new_obj(st, 8, 'global', 'strerror', 0)
    return Ptr(o.id, 0)
