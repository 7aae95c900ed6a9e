"""Symbolic executor for LLVM IR produced from the real sources."""
import math, re, time, sys, bisect, struct, random
from fractions import Fraction
import z3
import irparse
from expr import *
import expr as X
from expr import E

M32 = 0xffffffff
M64 = (1 << 64) - 1


class NeedFork(Exception):
    def __init__(self, c):
        self.c = c


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Violation(Exception):
    """raised inside an instruction for an unconditional safety violation"""

    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj, self.off)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class FBits:
    """integer view of a real-mode symbolic float (can only be moved around)"""
    __slots__ = ('v', 'w')

    def __init__(self, v, w):
        self.v, self.w = v, w


class Comp:
    """integer assembled from cells which have no integer representation"""
    __slots__ = ('parts', 'n')    # parts: [(off,size,kind,val)], n bytes

    def __init__(self, parts, n):
        self.parts, self.n = parts, n


NULL = Ptr(0, 0)


class Obj:
    __slots__ = ('id', 'size', 'cells', 'fill', 'kind', 'alive', 'tok', 'name', 'ro')


class Frame:
    __slots__ = ('fn', 'blk', 'code', 'ip', 'regs', 'prev', 'allocas', 'dst', 'norm', 'unw', 'ty', 'va', 'loops')

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.code, f.ip, f.regs, f.prev = self.fn, self.blk, self.code, self.ip, dict(self.regs), self.prev
        f.allocas, f.dst, f.norm, f.unw, f.ty, f.va = list(self.allocas), self.dst, self.norm, self.unw, self.ty, self.va
        f.loops = self.loops
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.tok = object()
        self.pc = []          # list of E that hold
        self.known = {}       # expr id -> 0/1
        self.model = {}       # satisfying assignment (approximate in real mode)
        self.model_ok = True
        self.inputs = []      # (name, E, kind)
        self.names = {}
        self.steps = 0
        self.reach = []
        self.outs = []
        self.ghost = {}
        self.locks = []
        self.uninit = 0
        self.memo = {}
        self.pool = None      # indices of the engine's sample inputs known to follow this path
        self.pool_pos = 0

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.tok = object()
        s.tok = object()
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.model = self.model
        s.model_ok = self.model_ok
        s.inputs = list(self.inputs)
        s.names = dict(self.names)
        s.steps = self.steps
        s.reach = list(self.reach)
        s.outs = list(self.outs)
        s.ghost = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.ghost.items()}
        s.locks = list(self.locks)
        s.uninit = self.uninit
        s.memo = self.memo
        s.pool = list(self.pool) if self.pool is not None else None
        s.pool_pos = self.pool_pos
        return s


class Result:
    def __init__(self):
        self.paths = 0
        self.ends = {}
        self.violations = []     # dicts
        self.unconfirmed = []
        self.inconclusive = []
        self.reached = set()
        self.asserts = {}        # id -> count proved
        self.queries = 0
        self.solver_time = 0.0
        self.steps = 0
        self.funcs = set()
        self.notes = set()
        self.outs = []
        self.complete = True
        self.sat_unknown = 0


class Engine:
    def __init__(self, module, mode='bv', entry=None, stubs=None, asg=None, timeout=20000, feas_timeout=None,
                 max_paths=200000, max_steps=20000000, samples=32, deadline=None, divzero='fork', on_violation=None,
                 intoverflow=False, verbose=False, check_mem=True, path_steps=3000000, fp2int=True, seed=1,
                 uninit_zero=False, max_unconfirmed=6, split_depth=8, fork_round=False):
        self.m = module
        self.mode = mode            # 'bv' (bit precise) or 'real'
        self.real = mode == 'real'
        self.entry = entry
        self.asg = asg
        self.timeout = timeout
        self.feas_timeout = feas_timeout = feas_timeout or (150 if mode == 'real' else 400)
        self.samples = [({}, {}) for i in range(samples)]
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.path_steps = path_steps
        self.deadline = deadline or time.time() + 1e9
        self.divzero = divzero
        self.on_violation = on_violation
        self.intoverflow = intoverflow
        self.verbose = verbose
        self.check_mem = check_mem
        self.fp2int = fp2int
        self.seed = seed
        self.uninit_zero = uninit_zero
        self.max_unconfirmed = max_unconfirmed
        self.split_depth = split_depth
        self.fork_round = fork_round
        self.R = Result()
        self.R.witness = {}
        self.wtries = {}
        self.fixed = {}
        self.z = ToZ3()
        self.solver = z3.SimpleSolver() if self.real else z3.Solver()
        self.solver.set('timeout', feas_timeout)
        if self.real:
            self.solver.set('rlimit', feas_timeout * 2000)
        self.sstack = []
        self.bases = [0]
        self.base_ids = [0]
        self.next_addr = 1 << 20
        self.next_id = 1
        self.base_of = {0: 0}
        self.gobj = {}
        self.fnaddr = {}
        self.addrfn = {}
        self.stubs = []
        import builtins_ir
        self.builtins = builtins_ir.BUILTINS
        self.patterns = builtins_ir.PATTERNS
        self.user = stubs or {}
        self.stub_cache = {}
        self.hooks = {}
        self.store_hook = None
        self.load_hook = None
        self.unc_count = {}
        self.cutter = None
        self.roots = []
        self.confirmed = set()

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, kind, name='', fill=None):
        o = Obj()
        o.id = self.next_id
        self.next_id += 1
        o.size, o.kind, o.name, o.fill = size, kind, name, fill
        o.cells = {}
        o.alive = True
        o.ro = False
        o.tok = st.tok
        base = (self.next_addr + 15) & ~15
        self.next_addr = base + size + 64
        self.bases.append(base)
        self.base_ids.append(o.id)
        self.base_of[o.id] = base
        st.mem[o.id] = o
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.tok is not st.tok:
            n = Obj()
            n.id, n.size, n.fill, n.kind, n.alive, n.name, n.ro = o.id, o.size, o.fill, o.kind, o.alive, o.name, o.ro
            n.cells = dict(o.cells)
            n.tok = st.tok
            st.mem[oid] = n
            return n
        return o

    def addr(self, p):
        if isinstance(p, Fn):
            a = self.fnaddr.get(p.name)
            if a is None:
                a = 0x1000 + 16 * len(self.fnaddr)
                self.fnaddr[p.name] = a
                self.addrfn[a] = p.name
            return a
        b = self.base_of[p.obj]
        if is_c(p.off):
            return (b + p.off) & M64
        if self.real:
            return iop('add', p.off, b)
        return bvop('add', 64, p.off, b)

    def toptr(self, v):
        if isinstance(v, (Ptr, Fn)):
            return v
        if isinstance(v, Comp) and len(v.parts) == 1 and v.parts[0][2] == 'p':
            return v.parts[0][3]
        if is_c(v):
            if v == 0:
                return NULL
            if v in self.addrfn:
                return Fn(self.addrfn[v])
            i = bisect.bisect_right(self.bases, v) - 1
            oid = self.base_ids[i]
            if oid == 0:
                return Ptr(0, v)
            return Ptr(oid, v - self.bases[i])
        if v.op in ('add', 'iadd') and is_c(v.args[1]):
            i = bisect.bisect_right(self.bases, v.args[1]) - 1
            if i > 0:
                oid = self.base_ids[i]
                d = v.args[1] - self.bases[i]
                return Ptr(oid, (iop('add', v.args[0], d) if self.real else bvop('add', 64, v.args[0], d)))
        raise Unsupported('inttoptr of symbolic value')

    # ------------------------------------------------------------ solver
    def zc(self, e):
        if is_c(e):
            return z3.BoolVal(bool(e))
        return self.z.tr(e)

    def sides(self, e):
        if is_c(e):
            return ()
        self.z.tr(e)
        return self.z.side(e)

    def sync(self, st):
        pc = st.pc
        k = 0
        ss = self.sstack
        n = min(len(pc), len(ss))
        while k < n and ss[k] is pc[k]:
            k += 1
        if len(ss) > k:
            self.solver.pop(len(ss) - k)
            del ss[k:]
        for e in pc[k:]:
            self.solver.push()
            f = self.cutter.sub(e) if self.cutter is not None else e
            self.solver.add(self.zc(f))
            for s in self.sides(f):
                self.solver.add(s)
            ss.append(e)

    def feasible(self, st, c):
        """sat / unsat / unknown of pc & c (incremental)"""
        t = time.time()
        self.sync(st)
        self.solver.push()
        if self.cutter is not None:
            c = self.cutter.sub(c)
        self.solver.add(self.zc(c))
        for s in self.sides(c):
            self.solver.add(s)
        r = self.solver.check()
        asg = None
        if r == z3.sat and self.cutter is not None:
            r = z3.unknown
        if r == z3.sat:
            asg = self.extract(self.solver.model(), st)
        self.solver.pop()
        self.R.queries += 1
        dt = time.time() - t
        self.R.solver_time += dt
        if r == z3.unknown:
            self.R.sat_unknown += 1
        return str(r), asg

    def val(self, m, e):
        v = m.eval(self.z.tr(e), model_completion=True)
        s = e.sort
        if s == 'B':
            return int(z3.is_true(v))
        if s == 'I':
            return v.as_long()
        if s == 'R':
            if z3.is_rational_value(v):
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_algebraic_value(v):
                a = v.approx(30)
                return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            return 0.0
        if s in ('F32', 'F64'):
            b = z3.simplify(z3.fpToIEEEBV(v))
            if z3.is_bv_value(b):
                return bits32f(b.as_long()) if s == 'F32' else bits64f(b.as_long())
            return NAN
        return v.as_long()

    def extract(self, m, st):
        asg = {}
        for nm, e, k in st.inputs:
            if not is_c(e):
                asg[nm] = self.val(m, e)
        return asg

    def solve(self, st, extra, timeout=None, want_model=True):
        """decide pc & extra with the full portfolio; returns (res, asg)"""
        import solvers
        t = time.time()
        es = list(st.pc) + [extra]
        cons = []
        seen = set()
        for e in es:
            if is_c(e):
                if not e:
                    return 'unsat', None
                continue
            cons.append(self.zc(e))
            for s in self.sides(e):
                if s.get_id() not in seen:
                    seen.add(s.get_id())
                    cons.append(s)
        to = timeout or self.timeout
        left = max(1000, int((self.deadline - time.time()) * 1000))
        r, m = solvers.check(cons, self.mode, min(to, left), self.seed)
        self.R.queries += 1
        self.R.solver_time += time.time() - t
        asg = None
        if r == 'sat' and m is not None:
            asg = self.extract(m, st)
        return r, asg

    def split_solve(self, st, neg):
        """case split over the unresolved selections, normalise, then ask the solver"""
        import poly
        neg = X.spread_minmax(neg)
        work = [(st.pc, st.known, neg, 0)]
        unk = None
        t_end = time.time() + self.timeout / 1000.0 * 3
        while work:
            pc, known, ng, d = work.pop()
            memo = {}
            ng = X.resolve(ng, known, memo)
            nz = poly.Normaliser(known)
            ng = poly.simplify_bool(known, ng, nz, {})
            if is_c(ng) and not ng:
                self.R.normalised = getattr(self.R, 'normalised', 0) + 1
                continue
            c = X.find_ite(ng) if d < self.split_depth else None
            if c is not None:
                t = State()
                for val in (1, 0):
                    t.known = dict(known)
                    self.learn(t, c, val)
                    cc = c if val else bnot(c)
                    work.append((pc + [cc], t.known, ng, d + 1))
                continue
            t = State()
            rm = {}
            t.pc = [X.resolve(e, known, rm, False) for e in pc] if d else pc
            t.inputs = st.inputs
            if any(is_c(e) and not e for e in t.pc):
                continue
            t.pc = [e for e in t.pc if not is_c(e)]
            if self.cutter is not None:
                u = State()
                u.inputs = st.inputs
                u.pc = [self.cutter.sub(e) for e in t.pc]
                cng = poly.simplify_bool({}, self.cutter.sub(ng), poly.Normaliser({}), {})
                if is_c(cng) and not cng:
                    continue
                full = u.pc
                ok = False
                if not is_c(cng):
                    V = X.fvars(cng)
                    u.pc = [e for e in full if is_c(e) or X.fvars(e) <= V]
                    if len(u.pc) < len(full):
                        r, asg = self.solve(u, cng)
                        ok = r == 'unsat'
                if not ok:
                    u.pc = full
                    r, asg = self.solve(u, cng, timeout=self.timeout // 2)
                if r == 'unsat':
                    continue
                if self.verbose:
                    print('   cut query', r)
                if r == 'sat' and asg:
                    # a candidate: look for an original assignment that agrees on the inputs outside the cuts
                    from fractions import Fraction
                    raw = self.cutter.rawnames()
                    pin = ng
                    for n, e, k in st.inputs:
                        if isinstance(e, E) and e.sort == 'R' and n not in raw and n in asg and isinstance(asg[n], float):
                            pin = band(pin, rcmp('eq', e, asg[n]))
                    if pin is not ng:
                        r, asg = self.solve(t, pin, timeout=min(3000, self.timeout))
                        if r == 'sat':
                            return r, asg
            r, asg = self.solve(t, ng)
            if r == 'sat':
                return r, asg
            if r != 'unsat':
                unk = r
                if time.time() > t_end:
                    break
        return (unk or 'unsat'), None

    # ------------------------------------------------------------ path conditions
    def add_pc(self, st, c, check=True):
        """assume c on the path; ends the path when infeasible"""
        if is_c(c):
            if not c:
                raise PathEnd('assume')
            return
        k = st.known.get(c.id)
        if k is not None:
            if not k:
                raise PathEnd('assume')
            return
        if c.op == 'and':
            self.add_pc(st, c.args[0], check)
            self.add_pc(st, c.args[1], check)
            return
        if check:
            if st.model_ok and self.evalm(st, c) == 1:
                pass
            elif (i := self.pool_find(st, c, 1)) is not None:
                st.model, st.memo, st.model_ok = dict(self.samples[i][0]), {}, True
            else:
                r, asg = self.feasible(st, c)
                if r == 'unsat':
                    raise PathEnd('assume')
                if asg is not None:
                    st.model = asg
                    st.memo = {}
                    st.model_ok = True
                else:
                    st.model_ok = False
        self.push(st, c)

    def push(self, st, c):
        st.pc.append(c)
        self.learn(st, c, 1)

    def learn(self, st, c, v):
        if is_c(c):
            return
        st.known[c.id] = v
        if c.op == 'not':
            self.learn(st, c.args[0], 1 - v)
        elif c.op == 'and' and v:
            self.learn(st, c.args[0], 1)
            self.learn(st, c.args[1], 1)
        elif c.op == 'or' and not v:
            self.learn(st, c.args[0], 0)
            self.learn(st, c.args[1], 0)
        elif c.op == 'lt' and v:
            k = ('le', c.args)
        if c.op in ('lt', 'le'):
            # strict/loose counterparts
            o = mk('le' if c.op == 'lt' else 'lt', (c.args[1], c.args[0]), 'B')
            st.known[o.id] = 1 - v

    def evalm(self, st, c):
        if st.memo is None or len(st.memo) > 200000:
            st.memo = {}
        try:
            return X.ev(c, st.model, st.memo)
        except (Unsupported, ZeroDivisionError, OverflowError, ValueError):
            return None

    def declare(self, st, nm, lo, hi, kind):
        """give a new input a value in every sample input (used only to avoid feasibility queries)"""
        if st.pool is None:
            st.pool = list(range(len(self.samples)))
        keep = []
        for i in st.pool:
            asg, memo = self.samples[i]
            v = asg.get(nm)
            if v is None:
                r = random.Random('%s/%s/%d' % (self.seed, nm, i))
                if kind == 'f':
                    L, H = max(lo, -1e6), min(hi, 1e6)
                    q = r.random()
                    v = r.uniform(L, H)
                    if q < 0.25 and L <= round(v) <= H:
                        v = float(round(v))
                    elif q < 0.35:
                        v = L if r.random() < 0.5 else H
                    elif q < 0.42 and L <= 0 <= H:
                        v = 0.0
                    v = f32(v)
                    v = min(max(v, lo), hi)
                else:
                    q = r.random()
                    v = r.randint(lo, min(hi, lo + 8)) if q < 0.3 else lo if q < 0.4 else hi if q < 0.5 else r.randint(lo, hi)
                    if kind[0] == 'w':
                        v &= (1 << int(kind[1:])) - 1
                asg[nm] = v
            elif kind[0] != 'w' and not lo <= v <= hi:
                continue
            keep.append(i)
        st.pool = keep

    def pool_sync(self, st):
        if not st.pool:
            st.pool_pos = len(st.pc)
            return
        for c in st.pc[st.pool_pos:]:
            st.pool = [i for i in st.pool if self.pool_ev(i, c) == 1]
            if not st.pool:
                break
        st.pool_pos = len(st.pc)

    def pool_ev(self, i, c):
        asg, memo = self.samples[i]
        if len(memo) > 100000:
            memo.clear()
        try:
            return X.ev(c, asg, memo)
        except (Unsupported, ZeroDivisionError, OverflowError, ValueError, TypeError):
            return None

    def pool_find(self, st, c, val):
        self.pool_sync(st)
        for i in st.pool or ():
            if self.pool_ev(i, c) == val:
                return i
        return None

    def cut(self, x, alias=False):
        import poly
        if self.cutter is None:
            self.cutter = poly.Cutter()
        if (self.cutter.alias(x) if alias else self.cutter.add(x)) and self.sstack:
            self.solver.pop(len(self.sstack))
            self.sstack = []

    def decide(self, st, c):
        """truth of a condition; forks (by exception) when both are possible"""
        if is_c(c):
            return bool(c)
        k = st.known.get(c.id)
        if k is not None:
            return bool(k)
        if c.op == 'not':
            return not self.decide(st, c.args[0])
        raise NeedFork(c)

    def fold_real(self, st, v):
        """the constant value of a real term whose polynomial form is constant"""
        import poly
        known = dict(st.known)
        try:
            for _ in range(40):
                v = X.resolve(v, known, {})
                if is_c(v):
                    return v
                c = X.find_ite(v)
                if c is None:
                    break
                b = poly.simplify_bool(known, c, poly.Normaliser(known), {})
                if not is_c(b):
                    return v
                known[c.id] = int(bool(b))
            n, d = poly.Normaliser(known).norm(v)
        except poly.TooBig:
            return v
        if set(n) <= {()} and set(d) <= {()}:
            c = n.get((), 0) / d.get((), 1)
            return float(c)
        return v

    def pin_round(self, st, kind, x):
        """the rounded value of x when the path fixes it (or, with fork_round, forked over its values)"""
        for i in range(80):
            asg = st.model if st.model_ok and i == 0 else None
            if asg is None:
                r, asg = self.feasible(st, 1)
                if r == 'unsat':
                    raise PathEnd('assume')
                if asg is None:
                    return None
            try:
                k = X.crnd(kind, X.ev(x, asg, {}))
            except (Unsupported, ZeroDivisionError, OverflowError, ValueError):
                return None
            if k is None or k != k or math.isinf(k):
                return None
            k = float(k) + 0.0
            if kind == 'floor' or kind == 'trunc' and k > 0:
                c = band(rcmp('le', k, x), rcmp('lt', x, k + 1))
            elif kind == 'ceil' or kind == 'trunc' and k < 0:
                c = band(rcmp('lt', k - 1, x), rcmp('le', x, k))
            else:
                c = band(rcmp('lt', -1.0, x), rcmp('lt', x, 1.0))
            if is_c(c):
                return k if c else None
            kn = st.known.get(c.id)
            if kn == 1:
                return k
            if not self.fork_round:
                return k if kn is None and self.must(st, c) else None
            if kn is None:
                if self.decide(st, c):
                    return k
        return None

    def must(self, st, c):
        """is c implied by the path (no forking)"""
        if is_c(c):
            return bool(c)
        k = st.known.get(c.id)
        if k is not None:
            return bool(k)
        if st.model_ok and self.evalm(st, c) == 0:
            return False
        if self.pool_find(st, c, 0) is not None:
            return False
        r, asg = self.feasible(st, bnot(c))
        if r == 'unsat':
            self.learn(st, c, 1)
            return True
        return False

    # ------------------------------------------------------------ constants
    def const(self, st, ty, o):
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'cf':
            return o[1]
        if k == 'cf80':
            return self.f80(o[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gaddr(st, o[1])
        if k in ('undef', 'zero'):
            return self.zero(ty)
        if k == 'agg':
            return [self.const(st, self.m.resolve(t), v) for t, v in o[1]]
        if k == 'str':
            return list(o[1])
        if k == 'ce':
            return self.cexpr(st, o)
        raise Unsupported('const %s' % (o,))

    def f80(self, t):
        v = int(t[3:], 16)
        s, e, mnt = v >> 79, (v >> 64) & 0x7fff, v & M64
        if e == 0 and mnt == 0:
            return -0.0 if s else 0.0
        return (-1) ** s * math.ldexp(mnt, e - 16383 - 63)

    def zero(self, ty):
        ty = self.m.resolve(ty)
        k = ty[0]
        if k == 'i':
            return 0
        if k == 'f':
            return 0.0
        if k == 'p':
            return NULL
        if k == 'a' or k == 'v':
            return [self.zero(ty[2]) for _ in range(ty[1])]
        if k == 's':
            return [self.zero(t) for t in ty[1]]
        return 0

    def gaddr(self, st, name):
        m = self.m
        while name in m.aliases:
            a = m.aliases[name]
            if a[0] == 'g':
                name = a[1]
            else:
                return self.const(st, ('p',), a)
        oid = self.gobj.get(name)
        if oid is not None:
            if oid not in st.mem:
                raise Unsupported('global created on another path: ' + name)
            return Ptr(oid, 0)
        if name in m.globals:
            raise Unsupported('global not materialised ' + name)
        return Fn(name)

    def init_globals(self, st):
        m = self.m
        for name, (ty, init, const) in m.globals.items():
            if name.startswith('llvm.'):
                continue
            try:
                size = m.size(ty)
            except Exception:
                size = 8
            o = self.new_obj(st, size, 'global', name, fill=0)
            self.gobj[name] = o.id
        for name, (ty, init, const) in m.globals.items():
            if name.startswith('llvm.') or init is None or init[0] == 'zero':
                continue
            o = st.mem[self.gobj[name]]
            self.init_mem(st, o, 0, m.resolve(ty), init)
        for name, (ty, init, const) in m.globals.items():
            if const and not name.startswith('llvm.'):
                st.mem[self.gobj[name]].ro = init is not None

    def init_mem(self, st, o, off, ty, init):
        m = self.m
        ty = m.resolve(ty)
        k = init[0]
        if k in ('zero', 'undef'):
            return
        if k == 'str':
            for i, b in enumerate(init[1]):
                if b:
                    o.cells[off + i] = (1, 'i', b)
            return
        if k == 'agg':
            if ty[0] == 's':
                offs = m.offsets(ty)[0]
                for (t, v), f in zip(init[1], offs):
                    self.init_mem(st, o, off + f, t, v)
            else:
                es = m.size(ty[2])
                for i, (t, v) in enumerate(init[1]):
                    self.init_mem(st, o, off + i * es, t, v)
            return
        self.rawstore(st, o, off, ty, self.const(st, ty, init))

    def cexpr(self, st, o):
        op = o[1]
        if op == 'gep':
            args = o[3]
            base = self.const(st, ('p',), args[0][1])
            return self.gep(st, o[2], base, [(t, self.const(st, t, v)) for t, v in args[1:]])
        if op == 'cast':
            return self.cast(st, o[2], self.m.resolve(o[3]), self.const(st, self.m.resolve(o[3]), o[4]),
                             self.m.resolve(o[5]))
        if op == 'bin':
            t = self.m.resolve(o[3])
            return self.binop(st, o[2], t, self.const(st, t, o[4]), self.const(st, t, o[5]), ())
        if op == 'icmp':
            t = self.m.resolve(o[3])
            return self.icmp(st, o[2], t, self.const(st, t, o[4]), self.const(st, t, o[5]))
        raise Unsupported('constexpr %s' % op)

    # ------------------------------------------------------------ operand
    def op(self, st, fr, ty, o):
        k = o[0]
        if k == 'r':
            return fr.regs[o[1]]
        if k == 'c' or k == 'cf':
            return o[1]
        return self.const(st, ty, o)

    # ------------------------------------------------------------ memory
    def memerr(self, msg):
        raise Violation('memory', msg)

    def deref(self, st, p, n, write, what):
        """returns (obj, off) with off concrete int or E, after bounds checks"""
        if isinstance(p, Fn):
            self.memerr('%s through function pointer' % what)
        if p.obj == 0:
            self.memerr('%s through null/invalid pointer' % what)
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported('object of another path')
        if not o.alive:
            self.memerr('%s of freed object %s' % (what, o.name))
        off = p.off
        if is_c(off):
            if off >> 63:
                off -= 1 << 64
            if off < 0 or off + n > o.size:
                self.memerr('%s of %d byte(s) at offset %d of %s (size %d)' % (what, n, off, o.name or o.kind, o.size))
            return o, off
        # symbolic offset: in bounds?
        if self.real:
            ok = band(rcmp('le', 0, off), rcmp('le', off, o.size - n))
        else:
            ok = bvcmp('ule', 64, off, (o.size - n) & M64) if o.size >= n else 0
        if is_c(ok):
            if not ok:
                self.memerr('%s at symbolic offset outside %s (size %d)' % (what, o.name or o.kind, o.size))
        elif not self.decide(st, ok):
            self.memerr('%s at symbolic offset outside %s (size %d)' % (what, o.name or o.kind, o.size))
        return o, off

    def offsets_of(self, st, o, off, n):
        """candidate concrete offsets of a symbolic in-bounds offset"""
        key = ('offs', off.id, o.size, n)
        c = st.ghost.get(key)
        if c is not None:
            return c
        # use congruence knowledge: stride from the term
        stride = self.stride(off)
        base = 0
        if stride > 1:
            base = self.const_part(off) % stride
        lo, hi = 0, o.size - n
        if self.real and off.lo is not None:
            lo = max(lo, off.lo)
        if self.real and off.hi is not None:
            hi = min(hi, off.hi)
        first = lo + ((base - lo) % stride)
        c = list(range(first, hi + 1, stride))
        if len(c) > 4:
            # tighten with the solver: bisection on the upper/lower limit
            def cmp(x, le):
                if self.real:
                    return rcmp('le', off, x) if le else rcmp('le', x, off)
                return bvcmp('ule', 64, off, x) if le else bvcmp('ule', 64, x, off)
            a, b = 0, len(c) - 1
            while a < b:
                mid = (a + b) // 2
                if self.must(st, cmp(c[mid], True)):
                    b = mid
                else:
                    a = mid + 1
            c = c[:a + 1]
            a, b = 0, len(c) - 1
            while a < b:
                mid = (a + b + 1) // 2
                if self.must(st, cmp(c[mid], False)):
                    a = mid
                else:
                    b = mid - 1
            c = c[a:]
        st.ghost[key] = c
        return c

    def stride(self, e):
        if is_c(e):
            return 0 if e == 0 else (e if e > 0 else -e)
        if e.op in ('imul', 'mul') and is_c(e.args[1]):
            return max(1, e.args[1])
        if e.op == 'shl' and is_c(e.args[1]):
            return 1 << e.args[1]
        if e.op in ('iadd', 'add'):
            if is_c(e.args[1]):
                return self.stride(e.args[0])
            return math.gcd(self.stride(e.args[0]), self.stride(e.args[1])) or 1
        if e.op == 'ite':
            a, b = e.args[1], e.args[2]
            if is_c(a) and is_c(b):
                return max(1, abs(a - b))
            return 1
        if e.op == 'zext' and e.args[0].op in ('shl', 'mul'):
            return 1
        return 1

    def const_part(self, e):
        if is_c(e):
            return e
        if e.op in ('iadd', 'add'):
            return self.const_part(e.args[0]) + self.const_part(e.args[1])
        if e.op == 'ite' and is_c(e.args[1]) and is_c(e.args[2]):
            return e.args[1]
        return 0

    def offeq(self, off, k):
        return rcmp('eq', off, k) if self.real else bveq(off, k, 64)

    def load(self, st, ty, p):
        ty = self.m.resolve(ty)
        n = self.m.size(ty) if ty[0] != 'i' else (ty[1] + 7) // 8
        k = ty[0]
        if k in ('v', 'a'):
            es = self.m.size(ty[2])
            return [self.load(st, ty[2], self.padd(p, i * es)) for i in range(ty[1])]
        if k == 's':
            offs = self.m.offsets(ty)[0]
            return [self.load(st, t, self.padd(p, f)) for t, f in zip(ty[1], offs)]
        o, off = self.deref(st, p, n, False, 'read')
        if self.load_hook:
            self.load_hook(self, st, o, off, n)
        if is_c(off):
            return self.rawload(st, o, off, ty, n)
        cands = self.offsets_of(st, o, off, n)
        if len(cands) > 4096:
            raise Unsupported('symbolic offset over %d cells' % len(cands))
        if k == 'p':
            for c in cands[:-1]:
                if self.decide(st, self.offeq(off, c)):
                    return self.rawload(st, o, c, ty, n)
            return self.rawload(st, o, cands[-1], ty, n)
        vals = [self.rawload(st, st.mem[o.id], c, ty, n) for c in cands]
        if any(isinstance(v, (Ptr, Fn, FBits, Comp)) for v in vals):
            for c in cands[:-1]:
                if self.decide(st, self.offeq(off, c)):
                    return self.rawload(st, o, c, ty, n)
            return vals[-1]
        r = vals[-1]
        sort = self.sortof(ty)
        # constants that are inf/nan cannot be mixed with reals
        for c, v in reversed(list(zip(cands[:-1], vals[:-1]))):
            if self.real and k == 'f' and (self.isspecial(v) or self.isspecial(r)):
                if self.decide(st, self.offeq(off, c)):
                    return v
                continue
            if self.real and k == 'i':
                v, r = self.sv(v, ty[1]), self.sv(r, ty[1])
            r = ite(self.offeq(off, c), v, r, sort)
        return r

    def isspecial(self, v):
        return isinstance(v, float) and (v != v or math.isinf(v))

    def sv(self, v, n):
        """signed view of a concrete int in math mode"""
        return sgn(v, n) if is_c(v) else v

    def sortof(self, ty):
        if ty[0] == 'f':
            return 'R' if self.real else 'F32' if ty[1] == 32 else 'F64'
        if ty[0] == 'i':
            if ty[1] == 1:
                return 'B'
            return 'I' if self.real else ('V', (ty[1] + 7) // 8 * 8 if False else ty[1])
        raise Unsupported('sort %s' % (ty,))

    def padd(self, p, k):
        if k == 0:
            return p
        if isinstance(p, Fn):
            raise Unsupported('arith on function pointer')
        if is_c(p.off):
            return Ptr(p.obj, (p.off + k) & M64)
        return Ptr(p.obj, iop('add', p.off, k) if self.real else bvop('add', 64, p.off, k & M64))

    def fresh(self, st, ty, why):
        k = st.names.get('!' + why, 0)
        st.names['!' + why] = k + 1
        nm = '%s!%d' % (why, k)
        if ty[0] == 'f':
            if self.real:
                return var(nm, 'R', -1e6, 1e6)
            return var(nm, 'F32' if ty[1] == 32 else 'F64')
        if ty[0] == 'i':
            if ty[1] == 1:
                return var(nm, 'B')
            if self.real:
                return var(nm, 'I', -(1 << ty[1] - 1), (1 << ty[1] - 1) - 1)
            return var(nm, ('V', ty[1]))
        return NULL

    def rawload(self, st, o, off, ty, n):
        cells = o.cells
        c = cells.get(off)
        k = ty[0]
        if c is not None and c[0] == n:
            ck, v = c[1], c[2]
            if ck == k:
                if k == 'i' and ty[1] == 1 and is_c(v):
                    return v & 1
                if k == 'i' and ty[1] & 7:
                    return self.truncv(st, v, n * 8, ty[1])
                return v
            return self.convert(st, ck, v, n, ty)
        # assemble
        if c is None and o.fill == 0 and not self.overlap(o, off, n):
            return self.zero(ty)
        if c is None and not self.overlap(o, off, n):
            # wholly uninitialised
            st.uninit += 1
            if self.uninit_zero:
                return self.zero(ty)
            v = self.fresh(st, ty if ty[0] != 'i' else ('i', n * 8), 'uninit')
            o2 = self.wobj(st, o.id)
            o2.cells[off] = (n, k, v)
            if k == 'i' and ty[1] & 7:
                return self.truncv(st, v, n * 8, ty[1])
            return v
        return self.assemble(st, o, off, ty, n)

    def overlap(self, o, off, n):
        """any cell overlapping [off,off+n)"""
        cells = o.cells
        for i in range(off, off + n):
            if i in cells:
                return True
        for i in range(off - 1, off - 17, -1):
            c = cells.get(i)
            if c is not None:
                return i + c[0] > off
        return False

    def assemble(self, st, o, off, ty, n):
        parts = []
        i = off
        end = off + n
        cells = o.cells
        while i < end:
            c = cells.get(i)
            if c is not None and i + c[0] <= end:
                parts.append((i - off, c[0], c[1], c[2]))
                i += c[0]
                continue
            if c is None:
                # inside an earlier cell?
                j = i - 1
                host = None
                while j > i - 17:
                    h = cells.get(j)
                    if h is not None:
                        if j + h[0] > i:
                            host = (j, h)
                        break
                    j -= 1
                if host is None:
                    if o.fill == 0:
                        parts.append((i - off, 1, 'i', 0))
                    else:
                        st.uninit += 1
                        v = 0 if self.uninit_zero else self.fresh(st, ('i', 8), 'uninit')
                        o2 = self.wobj(st, o.id)
                        o2.cells[i] = (1, 'i', v)
                        cells = o2.cells
                        parts.append((i - off, 1, 'i', v))
                    i += 1
                    continue
                c, ci = host[1], host[0]
            else:
                ci = i
            # part of a wider cell
            b = i - ci
            w = min(c[0] - b, end - i)
            v = c[2]
            if c[1] != 'i':
                v = self.convert(st, c[1], v, c[0], ('i', c[0] * 8))
            if isinstance(v, (FBits,)) or isinstance(v, (Ptr, Fn)):
                raise Unsupported('partial read of a %s' % c[1])
            if isinstance(v, Comp):
                sub = [(a - b, s2, k2, x) for a, s2, k2, x in v.parts if a >= b and a + s2 <= b + w]
                if sum(s2 for _, s2, _, _ in sub) != w:
                    raise Unsupported('partial read of composite')
                for a, s2, k2, x in sub:
                    parts.append((i - off + a, s2, k2, x))
                i += w
                continue
            parts.append((i - off, w, 'i', self.slice_int(st, v, c[0] * 8, b * 8, w * 8)))
            i += w
        if ty[0] != 'i' and len(parts) == 1:
            return self.convert(st, parts[0][2], parts[0][3], n, ty)
        # ints
        if all(p[2] == 'i' for p in parts) and not any(isinstance(p[3], (FBits, Comp)) for p in parts):
            if all(is_c(p[3]) for p in parts):
                v = 0
                for a, s2, _, x in parts:
                    v |= x << (8 * a)
            elif self.real:
                if all(is_c(p[3]) or p[3].lo is not None and p[3].lo >= 0 for p in parts):
                    v = 0
                    for a, s2, _, x in parts:
                        v = iop('add', v, iop('mul', x, 1 << (8 * a)))
                    if not is_c(v) and v.hi is not None and v.hi >= 1 << (8 * n - 1):
                        if ty[0] == 'i':
                            return Comp(parts, n)
                        raise Unsupported('assemble math int')
                else:
                    return Comp(parts, n) if ty[0] == 'i' else self.uns('assemble')
            else:
                v, w = 0, 0
                for a, s2, _, x in parts:
                    v = x if w == 0 else concat(x, v, s2 * 8, w)
                    w += s2 * 8
            if ty[0] == 'i':
                if ty[1] != n * 8:
                    return self.truncv(st, v, n * 8, ty[1])
                return v
            return self.convert(st, 'i', v, n, ty)
        if not self.real:
            v, w = 0, 0
            for a, s2, k2, x in parts:
                x = self.convert(st, k2, x, s2, ('i', s2 * 8)) if k2 != 'i' else x
                v = x if w == 0 else concat(x, v, s2 * 8, w)
                w += s2 * 8
            return v if ty[0] == 'i' else self.convert(st, 'i', v, n, ty)
        if ty[0] == 'i':
            return Comp(parts, n)
        raise Unsupported('assemble %s from %s' % (ty, [(p[1], p[2]) for p in parts]))

    def uns(self, m):
        raise Unsupported(m)

    def slice_sum(self, v, lo, w, n=None):
        """bits of a sum of shifted small numbers which do not overlap, or None"""
        todo, used, r = [v], 0, 0
        while todo:
            t = todo.pop()
            if is_c(t):
                if t < 0:
                    if n is None:
                        return None
                    t &= mask(n)
                if t & used:
                    return None
                used |= t
                r = iop('add', r, (t >> lo) & mask(w))
                continue
            if t.op == 'iadd':
                todo += list(t.args)
                continue
            k = 1
            if t.op == 'imul' and (is_c(t.args[0]) or is_c(t.args[1])):
                t, k = (t.args[1], t.args[0]) if is_c(t.args[0]) else (t.args[0], t.args[1])
            if k <= 0 or k & (k - 1) or t.lo is None or t.lo < 0 or t.hi is None:
                return None
            b = k.bit_length() - 1
            m = mask(int(t.hi).bit_length()) << b
            if m & used:
                return None
            used |= m
            if m >> lo == 0 or m & mask(lo + w) & ~mask(lo) == 0:
                continue
            if m & mask(lo) or m >> lo + w:
                return None
            r = iop('add', r, iop('mul', t, 1 << b - lo))
        return r

    def bytesof(self, v, n):
        """the bytes of an integer or composite, or None"""
        if not isinstance(v, Comp):
            if isinstance(v, (FBits, Ptr, Fn)):
                return None
            if is_c(v):
                return [v >> (8 * i) & 255 for i in range(n // 8)]
            r = [self.slice_sum(v, 8 * i, 8, n) for i in range(n // 8)]
            return None if any(x is None for x in r) else r
        r = [None] * (n // 8)
        for o, s, k, x in v.parts:
            if k != 'i' or isinstance(x, (FBits, Ptr, Fn)):
                return None
            if s == 1:
                r[o] = x
                continue
            sub = self.bytesof(x, 8 * s)
            if sub is None:
                return None
            r[o:o + s] = sub
        return None if any(x is None for x in r) else r

    def slice_int(self, st, v, total, lo, w):
        if is_c(v):
            return (v >> lo) & mask(w)
        if self.real:
            r = self.slice_sum(v, lo, w, total)
            if r is not None:
                return r
            if v.lo is None or v.lo < 0:
                # two's complement view
                v = ite(rcmp('lt', v, 0), iop('add', v, 1 << total), v, 'I')
                if v.lo is None or v.lo < 0:
                    v = mk('ite', v.args, 'I', 0, (1 << total) - 1) if v.op == 'ite' else v
            q = iop('tdiv', v, 1 << lo) if lo else v
            return iop('fmod', q, 1 << w)
        return extract(v, lo + w - 1, lo, total)

    def convert(self, st, ck, v, n, ty):
        """reinterpret a cell of kind ck as type ty (same size)"""
        k = ty[0]
        if ck == k:
            return v
        if k == 'i':
            if ck == 'f':
                if n == 16:
                    raise Unsupported('f80 bits')
                if is_c(v):
                    return f32bits(v) if n == 4 else f64bits(v)
                if self.real:
                    return FBits(v, n * 8)
                if v.op == 'bitsf':
                    return v.args[0]
                return mk('fbits', (v,), ('V', n * 8))
            if ck == 'p':
                if isinstance(v, Fn):
                    return self.addr(v)
                return self.addr(v)
        if k == 'f':
            if ck == 'p':
                v = self.addr(v)
            if isinstance(v, FBits):
                return v.v
            if isinstance(v, Comp):
                if len(v.parts) == 1 and v.parts[0][2] == 'f':
                    return v.parts[0][3]
                raise Unsupported('composite as float')
            if is_c(v):
                return bits32f(v) if n == 4 else bits64f(v)
            if self.real:
                raise Unsupported('int bits as real')
            if v.op == 'fbits':
                return v.args[0]
            return mk('bitsf', (v,), 'F32' if n == 4 else 'F64')
        if k == 'p':
            if isinstance(v, (FBits,)):
                raise Unsupported('float as ptr')
            return self.toptr(v)
        raise Unsupported('convert %s->%s' % (ck, k))

    def store(self, st, ty, v, p):
        ty = self.m.resolve(ty)
        k = ty[0]
        if k in ('v', 'a'):
            es = self.m.size(ty[2])
            for i in range(ty[1]):
                self.store(st, ty[2], v[i], self.padd(p, i * es))
            return
        if k == 's':
            for t, f, x in zip(ty[1], self.m.offsets(ty)[0], v):
                self.store(st, t, x, self.padd(p, f))
            return
        n = self.m.size(ty) if k != 'i' else (ty[1] + 7) // 8
        o, off = self.deref(st, p, n, True, 'write')
        if o.ro and self.check_mem:
            self.memerr('write to constant ' + o.name)
        if self.store_hook:
            self.store_hook(self, st, o, off, n)
        if is_c(off):
            o = self.wobj(st, o.id)
            self.rawstore(st, o, off, ty, v)
            return
        cands = self.offsets_of(st, o, off, n)
        if len(cands) > 1024:
            raise Unsupported('symbolic store over %d cells' % len(cands))
        if k == 'p' or isinstance(v, (FBits, Comp)) or self.real and k == 'f' and self.isspecial(v):
            for c in cands[:-1]:
                if self.decide(st, self.offeq(off, c)):
                    o = self.wobj(st, o.id)
                    return self.rawstore(st, o, c, ty, v)
            o = self.wobj(st, o.id)
            return self.rawstore(st, o, cands[-1], ty, v)
        olds = [self.rawload(st, st.mem[o.id], c, ty, n) for c in cands]
        if any(isinstance(x, (Ptr, Fn, FBits, Comp)) or self.real and self.isspecial(x) for x in olds):
            for c in cands[:-1]:
                if self.decide(st, self.offeq(off, c)):
                    o = self.wobj(st, o.id)
                    return self.rawstore(st, o, c, ty, v)
            o = self.wobj(st, o.id)
            return self.rawstore(st, o, cands[-1], ty, v)
        sort = self.sortof(ty)
        o = self.wobj(st, o.id)
        for c, old in zip(cands, olds):
            if self.real and k == 'i':
                v, old = self.sv(v, ty[1]), self.sv(old, ty[1])
            self.rawstore(st, o, c, ty, ite(self.offeq(off, c), v, old, sort))

    def clear_range(self, st, o, off, n):
        """remove/split the cells overlapping [off,off+n); o is writable"""
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            del cells[off]
            return
        for i in range(max(0, off - 16), off + n):
            c = cells.get(i)
            if c is None or i + c[0] <= off:
                continue
            size, k, v = c
            del cells[i]
            if i >= off and i + size <= off + n:
                continue
            # partially overwritten: keep the rest as byte/int pieces
            keep = []
            if i < off:
                keep.append((0, off - i))
            if i + size > off + n:
                keep.append((off + n - i, size - (off + n - i)))
            if k != 'i':
                v = self.convert(st, k, v, size, ('i', size * 8))
            for a, w in keep:
                if isinstance(v, (FBits, Ptr, Fn)):
                    raise Unsupported('partial overwrite of %s' % k)
                if isinstance(v, Comp):
                    sub = [(x, s2, k2, y) for x, s2, k2, y in v.parts if x >= a and x + s2 <= a + w]
                    if sum(s2 for _, s2, _, _ in sub) != w:
                        raise Unsupported('partial overwrite of composite')
                    for x, s2, k2, y in sub:
                        cells[i + x] = (s2, k2, y)
                    continue
                cells[i + a] = (w, 'i', self.slice_int(st, v, size * 8, a * 8, w * 8))

    def rawstore(self, st, o, off, ty, v):
        k = ty[0]
        if k in ('v', 'a'):
            es = self.m.size(ty[2])
            for i in range(ty[1]):
                self.rawstore(st, o, off + i * es, self.m.resolve(ty[2]), v[i])
            return
        if k == 's':
            for t, f, x in zip(ty[1], self.m.offsets(ty)[0], v):
                self.rawstore(st, o, off + f, self.m.resolve(t), x)
            return
        n = self.m.size(ty) if k != 'i' else (ty[1] + 7) // 8
        self.clear_range(st, o, off, n)
        if k == 'i' and ty[1] & 7:
            if ty[1] == 1:
                v = self.b2i(v, 8)
            elif not is_c(v):
                v = v if self.real else zext(v, ty[1], n * 8)
        if isinstance(v, Comp):
            for a, s2, k2, x in v.parts:
                o.cells[off + a] = (s2, k2, x)
            return
        if isinstance(v, FBits):
            o.cells[off] = (n, 'f', v.v)
            return
        o.cells[off] = (n, k, v)

    def tob(self, v):
        """the condition a 0/1 integer stands for, None when it is not of that shape"""
        if is_c(v):
            return v if v in (0, 1) else None
        if v.op == 'ite':
            t, f = self.tob(v.args[1]), self.tob(v.args[2])
            if t is not None and f is not None:
                if is_c(t) and is_c(f):
                    return (v.args[0] if t else bnot(v.args[0])) if t != f else t
                return bor(band(v.args[0], t), band(bnot(v.args[0]), f))
        return None

    def b2i(self, v, n):
        if is_c(v):
            return v
        return ite(v, 1, 0, 'I' if self.real else ('V', n))

    def memcpy(self, st, d, s, n, move=False):
        if not is_c(n):
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        so, soff = self.deref(st, s, n, False, 'memcpy read')
        do, doff = self.deref(st, d, n, True, 'memcpy write')
        if not is_c(soff):
            soff = self.concretize(st, soff, 64)
        if not is_c(doff):
            doff = self.concretize(st, doff, 64)
        if self.load_hook:
            self.load_hook(self, st, so, soff, n)
        if self.store_hook:
            self.store_hook(self, st, do, doff, n)
        if do.ro:
            self.memerr('memcpy to constant ' + do.name)
        # collect source pieces
        pieces = []
        i = soff
        end = soff + n
        cells = so.cells
        if len(cells) < n // 2:
            keys = sorted(k for k in cells if soff - 16 < k < end)
        else:
            keys = None
        # boundary splitting: first piece may start inside a cell
        def piece(off, w):
            return self.assemble(st, so, off, ('i', w * 8), w)
        fills = []
        while i < end:
            c = cells.get(i)
            if c is not None and i + c[0] <= end:
                pieces.append((i - soff,) + c)
                i += c[0]
                continue
            if c is not None or self.overlap(so, i, 1):
                v = piece(i, 1)
                pieces.append((i - soff, 1, 'i', v))
                i += 1
                continue
            # gap up to next key
            if keys is not None:
                j = bisect.bisect_right(keys, i)
                nx = keys[j] if j < len(keys) else end
            else:
                nx = i + 1
                while nx < end and nx not in cells:
                    nx += 1
            fills.append((i - soff, min(nx, end) - i))
            i = min(nx, end)
        do = self.wobj(st, do.id)
        sfill = so.fill
        # clear the destination
        self.clear_big(st, do, doff, n)
        for a, w in fills:
            if sfill == 0 and do.fill != 0:
                b = 0
                while b < w:
                    k = 8 if w - b >= 8 else 1
                    do.cells[doff + a + b] = (k, 'i', 0)
                    b += k
            elif sfill is None and do.fill == 0:
                for b in range(w):
                    do.cells[doff + a + b] = (1, 'i', 0 if self.uninit_zero else self.fresh(st, ('i', 8), 'uninit'))
        for a, w, k, v in pieces:
            do.cells[doff + a] = (w, k, v)

    def clear_big(self, st, o, off, n):
        if off == 0 and n == o.size:
            o.cells = {}
            return
        if len(o.cells) < n:
            ks = [k for k in o.cells if off - 16 < k < off + n]
        else:
            ks = [k for k in range(off - 16, off + n) if k in o.cells]
        for k in ks:
            c = o.cells[k]
            if k >= off and k + c[0] <= off + n:
                del o.cells[k]
        # borders
        for k in ks:
            c = o.cells.get(k)
            if c is not None and k + c[0] > off and k < off + n:
                self.clear_range(st, o, max(k, off), min(k + c[0], off + n) - max(k, off))

    def memset(self, st, d, b, n):
        if not is_c(n):
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        o, off = self.deref(st, d, n, True, 'memset')
        if not is_c(off):
            off = self.concretize(st, off, 64)
        if self.store_hook:
            self.store_hook(self, st, o, off, n)
        o = self.wobj(st, o.id)
        self.clear_big(st, o, off, n)
        if is_c(b) and b == 0:
            if o.fill == 0:
                return
            if off == 0 and n == o.size:
                o.fill = 0
                return
        i = 0
        while i < n:
            k = 4 if (n - i >= 4 and is_c(b) and (off + i) % 4 == 0) else 1
            o.cells[off + i] = (k, 'i', (b & 255) * (0x01010101 if k == 4 else 1) if is_c(b) else b)
            i += k

    def free(self, st, p, what):
        if isinstance(p, Fn):
            self.memerr('free of function')
        if p.obj == 0:
            if is_c(p.off) and p.off == 0:
                return
            self.memerr('free of invalid pointer')
        o = st.mem.get(p.obj)
        if not o.alive:
            self.memerr('double free')
        if o.kind != 'heap' or not is_c(p.off) or p.off != 0:
            self.memerr('free of non-heap pointer (%s)' % o.kind)
        o = self.wobj(st, p.obj)
        o.alive = False
        o.cells = {}

    def concretize(self, st, e, limit=64):
        """fork over all the values of e (bounded)"""
        if is_c(e):
            return e
        key = ('cz', e.id)
        c = st.ghost.get(key)
        if c is not None:
            return c
        n = e.sort[1] if isinstance(e.sort, tuple) else 64
        cnt = st.ghost.get(('czn', e.id), 0)
        if cnt > limit:
            raise Unsupported('too many values to concretise')
        r, asg = self.feasible(st, 1)
        if r == 'unsat':
            raise PathEnd('assume')
        if asg is None:
            raise Unsupported('concretise: unknown')
        memo = {}
        v = X.ev(e, asg, memo)
        eq = rcmp('eq', e, v) if self.real else bveq(e, v, n)
        k = st.known.get(eq.id) if not is_c(eq) else int(eq)
        if k == 1:
            st.ghost[key] = v
            return v
        st.ghost[('czn', e.id)] = cnt + 1
        if k is None:
            if self.decide(st, eq):
                st.ghost[key] = v
                return v
        return self.concretize(st, e, limit)

    def cstr(self, st, p, limit=4096):
        """concrete C string"""
        r = bytearray()
        for i in range(limit):
            b = self.load(st, ('i', 8), self.padd(p, i))
            if not is_c(b):
                raise Unsupported('symbolic string')
            if b == 0:
                return bytes(r)
            r.append(b)
        raise Unsupported('long string')

    # ------------------------------------------------------------ arithmetic
    def chk(self, st, v, n):
        """math mode: value must stay within the signed n-bit range"""
        if is_c(v):
            return v & mask(n)
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi:
            return v
        ok = band(rcmp('le', lo, v), rcmp('le', v, hi))
        if self.must(st, ok):
            return v
        raise Unsupported('possible %d-bit wrap in real mode: %s' % (n, show(v, 4)))

    def nonneg(self, st, v, n):
        if is_c(v):
            return v
        if v.lo is not None and v.lo >= 0:
            return v
        if self.must(st, rcmp('le', 0, v)):
            return v
        return None

    def unsigned_cheap(self, v, n):
        """unsigned value without a solver call, or None"""
        if is_c(v) or v.lo is not None and v.lo >= 0:
            return v
        if v.op == 'ite' and is_c(v.args[2]) is False and v.args[0] is rcmp('lt', v.args[1], 1 << n - 1):
            x = v.args[1]
            if not is_c(x) and x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < 1 << n and v.args[2] is iop('sub', x, 1 << n):
                return x
        return None

    def unsignedv(self, st, v, n):
        """unsigned value (math) of a signed-represented n-bit int"""
        if is_c(v):
            return v
        if v.op == 'ite' and is_c(v.args[2]) is False and v.args[0] is rcmp('lt', v.args[1], 1 << n - 1):
            x = v.args[1]
            if not is_c(x) and x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < 1 << n and v.args[2] is iop('sub', x, 1 << n):
                return x
        u = self.nonneg(st, v, n)
        if u is not None:
            return u
        c = rcmp('lt', v, 0)
        r = ite(c, iop('add', v, 1 << n), v, 'I')
        if not is_c(r) and r.lo is None or r.lo < 0:
            r = mk('ite', r.args, 'I', 0, (1 << n) - 1) if r.op == 'ite' else r
            if r.lo is None or r.lo < 0:
                r.lo, r.hi = 0, (1 << n) - 1
        return r

    def binop(self, st, op, ty, a, b, flags):
        if ty[0] == 'v':
            return [self.binop(st, op, self.m.resolve(ty[2]), x, y, flags) for x, y in zip(a, b)]
        if ty[0] == 'f':
            return self.fop(st, op[1:], ty, a, b)
        n = ty[1]
        if n == 1:
            if op == 'and' or op == 'mul':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return bxor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, (Ptr, Fn)):
            a = self.addr(a)
        if isinstance(b, (Ptr, Fn)):
            b = self.addr(b)
        if type(a) is int and type(b) is int:
            if op in ('udiv', 'sdiv', 'urem', 'srem') and b == 0:
                raise Violation('divzero', 'integer division by zero')
            if op in ('sdiv', 'srem') and a == 1 << (n - 1) and b == mask(n):
                raise Violation('overflow', 'INT_MIN / -1')
            r = cbv(op, n, a, b)
            if self.intoverflow and 'nsw' in flags:
                self.ovf(st, op, n, a, b)
            return r
        if isinstance(a, (FBits, Comp)) or isinstance(b, (FBits, Comp)):
            return self.compop(st, op, n, a, b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            z = (rcmp('eq', b, 0) if self.real else bveq(b, 0, n))
            if self.decide(st, z):
                raise Violation('divzero', 'integer division by zero')
        if not self.real:
            if self.intoverflow and 'nsw' in flags:
                self.ovf(st, op, n, a, b)
            # lower small masks on zext
            return bvop(op, n, a, b)
        # ---- math ints
        sa, sb = self.sv(a, n), self.sv(b, n)
        if op == 'add' and n == 8 and not (is_c(sa) and is_c(sb)):
            ua = a & 255 if is_c(a) else self.unsigned_cheap(a, 8)
            ub = b & 255 if is_c(b) else self.unsigned_cheap(b, 8)
            if ua is not None and ub is not None and not (is_c(ua) and ua > 127 or is_c(ub) and ub > 127):
                u = iop('add', ua, ub)
                if not is_c(u) and not u.hi < 256 and not self.must(st, rcmp('lt', u, 256)):
                    u = iop('fmod', u, 256)
                return self.truncv(st, u, 32, 8)
        if op in ('add', 'sub', 'mul'):
            return self.chk(st, iop(op, sa, sb), n)
        if op == 'sdiv' or op == 'srem':
            return iop('tdiv' if op == 'sdiv' else 'trem', sa, sb)
        if op in ('udiv', 'urem'):
            ua, ub = self.unsignedv(st, a, n), self.unsignedv(st, b, n)
            return self.chk(st, iop('tdiv' if op == 'udiv' else 'fmod', ua, ub), n)
        if op == 'shl' and is_c(b):
            if b % 8 == 0 and n % 8 == 0 and b < n and not is_c(sa) and sa.lo is not None and sa.lo >= 0 and sa.hi is not None and \
                    sa.hi < 1 << n - b and sa.hi << b >= 1 << n - 1:
                # does not fit the signed representation: kept as bytes
                return Comp([(0, b // 8, 'i', 0), (b // 8, (n - b) // 8, 'i', self.truncv(st, sa, n, n - b))], n // 8)
            return self.chk(st, iop('mul', sa, 1 << b), n)
        if op == 'lshr' and is_c(b):
            r = self.slice_sum(a, b, n - b, n) if b < n and a.op in ('iadd', 'imul') else None
            if r is not None:
                return r
            return iop('tdiv', self.unsignedv(st, a, n), 1 << b)
        if op == 'ashr' and is_c(b):
            u = self.nonneg(st, a, n)
            if u is not None:
                return iop('tdiv', u, 1 << b)
            # floor division for negatives: (a - (a mod 2^b)) / 2^b
            r = iop('fmod', sa, 1 << b)
            return iop('tdiv', iop('sub', sa, r), 1 << b)
        if op in ('and', 'or', 'xor'):
            ba, bb = self.tob(a), self.tob(b)
            if ba is not None and bb is not None:
                c = band(ba, bb) if op == 'and' else bor(ba, bb) if op == 'or' else bor(band(ba, bnot(bb)), band(bnot(ba), bb))
                return self.b2i(c, n)
        if op == 'and':
            if is_c(a):
                a, b = b, a
            if is_c(b):
                if (b & (b + 1)) == 0:       # low mask
                    r = self.slice_sum(a, 0, b.bit_length(), n) if a.op in ('iadd', 'imul') else None
                    if r is not None:
                        return r
                    return iop('fmod', a, b + 1)
                low = (b & -b).bit_length() - 1
                if (b >> low) & ((b >> low) + 1) == 0 and self.nonneg(st, a, n) is not None:
                    k = (b >> low) + 1
                    hi_all = b == (mask(n) >> low) << low
                    q = iop('tdiv', a, 1 << low)
                    if not hi_all:
                        q = iop('fmod', q, k)
                    return iop('mul', q, 1 << low)
        if op == 'or' and 'disjoint' in flags:
            return self.chk(st, iop('add', sa, sb), n)
        if op in ('or', 'xor') and is_c(b) and b == 0:
            return a
        if op == 'xor' and is_c(b) and b == mask(n):
            return iop('sub', -1, a)
        if op == 'or':
            if is_c(a):
                a, b = b, a
            if is_c(b) and a.lo is not None and a.hi is not None and a.lo >= 0:
                if (b & mask(a.hi.bit_length())) == 0:
                    return self.chk(st, iop('add', a, self.sv(b, n)), n)
        if op in ('and', 'or', 'xor') and all(
                is_c(x) or x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= 255 for x in (a, b)):
            # small: bit by bit
            w = max((x if is_c(x) else x.hi).bit_length() for x in (a, b))
            if w <= 8:
                r = 0
                for i in range(w):
                    def bit(x):
                        return (x >> i) & 1 if is_c(x) else iop('fmod', iop('tdiv', x, 1 << i), 2)
                    p, q = bit(a), bit(b)
                    pq = iop('mul', p, q)
                    t = pq if op == 'and' else iop('sub', iop('add', p, q), pq) if op == 'or' else \
                        iop('sub', iop('add', p, q), iop('mul', 2, pq))
                    r = iop('add', r, iop('mul', t, 1 << i))
                return r
        raise Unsupported('real-mode int op %s' % op)

    def ovf(self, st, op, n, a, b):
        if op not in ('add', 'sub', 'mul') or self.real:
            return
        if is_c(a) and is_c(b):
            r = {'add': sgn(a, n) + sgn(b, n), 'sub': sgn(a, n) - sgn(b, n), 'mul': sgn(a, n) * sgn(b, n)}[op]
            if not -(1 << n - 1) <= r < 1 << n - 1:
                raise Violation('overflow', 'signed overflow in ' + op)
            return
        w = n + 1 if op != 'mul' else 2 * n
        r = bvop(op, w, sext(a, n, w), sext(b, n, w))
        ok = bveq(r, sext(bvop(op, n, a, b), n, w), w)
        if not self.decide(st, ok):
            raise Violation('overflow', 'signed overflow in ' + op)

    def compop(self, st, op, n, a, b):
        if isinstance(a, FBits) and is_c(b):
            if op == 'and' and b == (mask(n) >> 1):
                return FBits(self.fabs(st, a.v), n)
            if op == 'xor' and b == 1 << (n - 1):
                return FBits(self.fneg(a.v), n)
        if self.real and (isinstance(a, Comp) or isinstance(b, Comp)):
            fa, fb = self.bytesof(a, n), self.bytesof(b, n)
            if fa is not None and fb is not None:
                if op == 'or':
                    r = []
                    for x, y in zip(fa, fb):
                        ux, uy = self.unsigned_cheap(x, 8), self.unsigned_cheap(y, 8)
                        z = x if is_c(y) and y == 0 else y if is_c(x) and x == 0 else None
                        if z is None and ux is not None and uy is not None:
                            z = self.slice_sum(iop('add', ux, uy), 0, 8)
                        if z is None:
                            break
                        r.append(z)
                    if len(r) == len(fa):
                        return self.plain([(i, 1, 'i', x) for i, x in enumerate(r)], n // 8)
                elif op in ('lshr', 'shl') and is_c(b) and not isinstance(b, Comp) and b % 8 == 0 and b < n:
                    k = b // 8
                    r = fa[k:] + [0] * k if op == 'lshr' else [0] * k + fa[:len(fa) - k]
                    return self.plain([(i, 1, 'i', x) for i, x in enumerate(r)], n // 8)
        if isinstance(a, Comp) and is_c(b):
            if op == 'lshr' and b % 8 == 0:
                k = b // 8
                parts = [(o - k, s, kk, v) for o, s, kk, v in a.parts if o >= k]
                if sum(p[1] for p in parts) == n // 8 - k:
                    return self.plain(parts + [(n // 8 - k, k, 'i', 0)], n // 8)
            if op == 'and':
                # keep whole parts
                parts = []
                for o, s, kk, v in a.parts:
                    mk_ = (b >> (8 * o)) & mask(8 * s)
                    if mk_ == mask(8 * s):
                        parts.append((o, s, kk, v))
                    elif mk_ == 0:
                        parts.append((o, s, 'i', 0))
                    elif kk == 'i':
                        parts.append((o, s, 'i', self.binop(st, 'and', ('i', 8 * s), v, mk_, ())))
                    else:
                        raise Unsupported('mask of composite')
                return self.plain(parts, a.n)
            if op == 'shl' and b % 8 == 0:
                k = b // 8
                parts = [(o + k, s, kk, v) for o, s, kk, v in a.parts if o + k + s <= n // 8]
                return Comp([(0, k, 'i', 0)] + parts, n // 8)
        if op == 'or' and isinstance(a, Comp) and isinstance(b, Comp):
            parts = []
            for (o, s, kk, v) in a.parts:
                if not (kk == 'i' and is_c(v) and v == 0):
                    parts.append((o, s, kk, v))
            for (o, s, kk, v) in b.parts:
                if not (kk == 'i' and is_c(v) and v == 0):
                    if any(o < o2 + s2 and o2 < o + s for o2, s2, _, _ in parts):
                        raise Unsupported('or of composites')
                    parts.append((o, s, kk, v))
            parts.sort()
            # zero gaps
            full = []
            pos = 0
            for p in parts:
                if p[0] > pos:
                    full.append((pos, p[0] - pos, 'i', 0))
                full.append(p)
                pos = p[0] + p[1]
            if pos < n // 8:
                full.append((pos, n // 8 - pos, 'i', 0))
            return Comp(full, n // 8)
        if op == 'or' and isinstance(b, Comp):
            a, b = b, a
        if op == 'or' and isinstance(a, Comp) and not isinstance(b, (Comp, FBits)):
            # b int: split by a's zero parts
            parts = []
            for (o, s, kk, v) in a.parts:
                x = self.slice_int(st, b, n, 8 * o, 8 * s)
                if kk == 'i' and is_c(v) and v == 0:
                    parts.append((o, s, 'i', x))
                elif is_c(x) and x == 0:
                    parts.append((o, s, kk, v))
                else:
                    y = self.slice_sum(iop('add', v, x), 0, 8 * s) if kk == 'i' else None
                    if y is None:
                        raise Unsupported('or composite')
                    parts.append((o, s, 'i', y))
            return Comp(parts, a.n)
        raise Unsupported('int op %s on float bits/composite' % op)

    def plain(self, parts, n):
        """an integer when only the lowest part is not zero"""
        rest = [p for p in parts if not (p[2] == 'i' and is_c(p[3]) and not isinstance(p[3], (Comp, FBits)) and p[3] == 0)]
        if not rest:
            return 0
        if self.real and all(p[2] == 'i' and not isinstance(p[3], (Comp, FBits, Ptr, Fn)) and
                             (is_c(p[3]) or p[3].lo is not None) for p in rest):
            rest = [(o, s, kk, self.unsigned_cheap(x, 8 * s)) for o, s, kk, x in rest]
            if any(x is None for _, _, _, x in rest):
                return Comp(parts, n)
            if all(is_c(p[3]) for p in rest):
                return sum(p[3] << (8 * p[0]) for p in rest)
            v = 0
            for o, s, _, x in rest:
                v = iop('add', v, iop('mul', x, 1 << (8 * o)))
            if v.hi is not None and v.hi < 1 << (8 * n - 1):
                return v
        return Comp(parts, n)

    def fabs(self, st, a):
        if is_c(a):
            return abs(a)
        if self.real:
            if a.lo is not None and a.lo >= 0:
                return a
            if a.hi is not None and a.hi <= 0:
                return rneg(a)
            if a.op == 'neg':
                a = a.args[0]
            # |a*b| kept as ite: sign decided lazily
            k = st.known.get(rcmp('lt', a, 0.0).id)
            if k is not None:
                return rneg(a) if k else a
            r = ite(rcmp('lt', a, 0.0), rneg(a), a, 'R')
            hi = None if a.lo is None or a.hi is None else max(abs(a.lo), abs(a.hi))
            if not is_c(r) and r.op == 'ite':
                r.lo = 0.0
                r.hi = hi
            return r
        if a.op == 'fabs':
            return a
        if a.op == 'fneg':
            return self.fabs(st, a.args[0])
        return mk('fabs', (a,), a.sort)

    def fneg(self, a):
        if is_c(a):
            return -a
        if self.real:
            return rneg(a)
        if a.op == 'fneg':
            return a.args[0]
        return mk('fneg', (a,), a.sort)

    def fop(self, st, op, ty, a, b):
        w = ty[1]
        if type(a) is float and type(b) is float:
            return cfop(op, a, b, w)
        if not self.real:
            s = 'F32' if w == 32 else 'F64'
            if w == 80:
                raise Unsupported('x87')
            if is_c(b) and b == 1.0 and op in ('mul', 'div'):
                return a
            if is_c(a) and a == 1.0 and op == 'mul':
                return b
            if op == 'rem':
                raise Unsupported('frem')
            if op in ('add', 'mul') and not is_c(a) and not is_c(b) and a.id > b.id:
                a, b = b, a
            return mk('f' + op, (a, b), s)
        # real mode
        sa, sb = is_c(a), is_c(b)
        if sa and self.isspecial(a) or sb and self.isspecial(b):
            if sa and a != a or sb and b != b:
                return NAN
            if op == 'add':
                return a if sa else b
            if op == 'sub':
                return a if sa else -b
            if op == 'div' and sb:
                return 0.0
            # inf*x, inf/x
            x = b if sa else a
            inf = a if sa else b
            if self.decide(st, rcmp('lt', 0.0, x)):
                return inf
            if self.decide(st, rcmp('lt', x, 0.0)):
                return -inf
            return NAN if op == 'mul' else inf
        if op == 'div':
            if not sb:
                z = rcmp('eq', b, 0.0)
                if self.divzero == 'assume':
                    if not (is_c(z) and not z):
                        if not self.must(st, bnot(z)):
                            self.R.notes.add('assumed non-zero divisor')
                            if self.decide(st, z):
                                raise PathEnd('divzero-assumed')
                elif self.decide(st, z):
                    if sa:
                        if a == 0:
                            return NAN
                        return math.copysign(INF, a)
                    if self.decide(st, rcmp('eq', a, 0.0)):
                        return NAN
                    return INF if self.decide(st, rcmp('lt', 0.0, a)) else -INF
            elif b == 0:
                if self.divzero == 'assume':
                    raise PathEnd('divzero-assumed')
                if self.decide(st, rcmp('eq', a, 0.0)):
                    return NAN
                s = INF if self.decide(st, rcmp('lt', 0.0, a)) else -INF
                return s * math.copysign(1, b)
        if op == 'rem':
            raise Unsupported('frem')
        return rop(op, a, b)

    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'v':
            return [self.icmp(st, pred, self.m.resolve(ty[2]), x, y) for x, y in zip(a, b)]
        if ty[0] == 'p':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj != 0:
                a, b = a.off, b.off
                if not self.real and pred[0] == 'u' and not (is_c(a) and is_c(b)):
                    pred = 's' + pred[1:]
                if self.real:
                    a, b = self.sv(a, 64), self.sv(b, 64)
                    if is_c(a) and is_c(b):
                        pred = pred.replace('u', 's', 1)
                        a, b = a & M64, b & M64
                n = 64
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and pred in ('eq', 'ne') and a.obj != b.obj:
                # distinct objects never compare equal
                return int(pred == 'ne')
            else:
                a, b = self.addr(a), self.addr(b)
                n = 64
        else:
            n = ty[1]
            if isinstance(a, (Ptr, Fn)):
                a = self.addr(a)
            if isinstance(b, (Ptr, Fn)):
                b = self.addr(b)
        if n == 1:
            if pred == 'eq':
                return bnot(bxor(a, b))
            if pred == 'ne':
                return bxor(a, b)
            if pred == 'ult' or pred == 'sgt':
                return band(bnot(a), b)
            if pred == 'ugt' or pred == 'slt':
                return band(a, bnot(b))
            if pred == 'ule' or pred == 'sge':
                return bor(bnot(a), b)
            return bor(a, bnot(b))
        if type(a) is int and type(b) is int:
            return bvcmp(pred, n, a, b)
        if isinstance(a, FBits) or isinstance(b, FBits):
            if isinstance(a, FBits) and isinstance(b, int):
                if pred in ('slt', 'sgt') and b == 0 and pred == 'slt':
                    return rcmp('lt', a.v, 0.0)
                if pred == 'sgt' and b == mask(n):
                    return rcmp('le', 0.0, a.v)
                if pred in ('eq', 'ne') and b == 0:
                    r = rcmp('eq', a.v, 0.0)
                    return r if pred == 'eq' else bnot(r)
            if isinstance(a, FBits) and isinstance(b, FBits) and pred in ('eq', 'ne'):
                r = rcmp('eq', a.v, b.v)
                return r if pred == 'eq' else bnot(r)
            raise Unsupported('icmp on float bits')
        if isinstance(a, Comp) or isinstance(b, Comp):
            if self.real and pred in ('eq', 'ne'):
                fa, fb = self.bytesof(a, n), self.bytesof(b, n)
                if fa is not None and fb is not None:
                    r = True
                    for x, y in zip(fa, fb):
                        x, y = [q & 255 if is_c(q) else self.unsigned_cheap(q, 8) for q in (x, y)]
                        if x is None or y is None:
                            r = None
                            break
                        r = band(r, rcmp('eq', x, y))
                    if r is not None:
                        return r if pred == 'eq' else bnot(r)
            raise Unsupported('icmp on composite %r %r' % (getattr(a, 'parts', a), getattr(b, 'parts', b)))
        if not self.real:
            return bvcmp(pred, n, a, b)
        if pred[0] == 'u':
            # unsigned compare against a constant: x <u K  ==  0<=x && x<K for K <= 2^(n-1)
            ua, ub = self.unsignedv(st, a, n), self.unsignedv(st, b, n)
            p = pred[1:]
        else:
            ua, ub = self.sv(a, n), self.sv(b, n)
            p = pred[1:] if pred[0] == 's' else pred
        if p == 'eq':
            return rcmp('eq', ua, ub)
        if p == 'ne':
            return bnot(rcmp('eq', ua, ub))
        if p == 'lt':
            return rcmp('lt', ua, ub)
        if p == 'le':
            return rcmp('le', ua, ub)
        if p == 'gt':
            return rcmp('lt', ub, ua)
        return rcmp('le', ub, ua)

    def fcmp(self, st, pred, ty, a, b):
        if ty[0] == 'v':
            return [self.fcmp(st, pred, self.m.resolve(ty[2]), x, y) for x, y in zip(a, b)]
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if type(a) is float and type(b) is float:
            uno = a != a or b != b
            if pred == 'uno':
                return int(uno)
            if pred == 'ord':
                return int(not uno)
            if uno:
                return int(pred[0] == 'u')
            p = pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        if self.real:
            if pred == 'uno':
                return int(is_c(a) and a != a or is_c(b) and b != b)
            if pred == 'ord':
                return int(not (is_c(a) and a != a or is_c(b) and b != b))
            if is_c(a) and a != a or is_c(b) and b != b:
                return int(pred[0] == 'u')
            p = pred[1:]
            if is_c(a) and math.isinf(a):
                a = -1.0 if a < 0 else 1.0
                b = 0.0
            elif is_c(b) and math.isinf(b):
                b = -1.0 if b < 0 else 1.0
                a = 0.0
            if is_c(a) and is_c(b):
                return self.fcmp(st, pred, ty, a, b)
            if p == 'eq':
                return rcmp('eq', a, b)
            if p == 'ne':
                return bnot(rcmp('eq', a, b))
            if p == 'lt':
                return rcmp('lt', a, b)
            if p == 'le':
                return rcmp('le', a, b)
            if p == 'gt':
                return rcmp('lt', b, a)
            return rcmp('le', b, a)
        fs = a.sort if not is_c(a) else b.sort
        if pred == 'uno' or pred == 'ord':
            if is_c(a) and a == a and not is_c(b):
                a = b
            if is_c(b) and b == b and not is_c(a):
                b = a
            r = self.fnan(a) if a is b else mk('fuo', (a, b), 'B')
            return r if pred == 'uno' else bnot(r)
        p = pred[1:]
        unord = pred[0] == 'u'
        if unord:
            # u<p> = not o<negp>
            neg = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}[p]
            return bnot(self.fcmp(st, 'o' + neg, ty, a, b))
        if is_c(a) and a != a or is_c(b) and b != b:
            return 0
        if p == 'ne':
            return band(bnot(mk('feq', (a, b), 'B')), bnot(mk('fuo', (a, b), 'B')))
        if p == 'eq':
            return mk('feq', (a, b), 'B')
        if p == 'lt':
            return mk('flt', (a, b), 'B')
        if p == 'le':
            return mk('fle', (a, b), 'B')
        if p == 'gt':
            return mk('flt', (b, a), 'B')
        return mk('fle', (b, a), 'B')

    def fnan(self, a):
        if is_c(a):
            return int(a != a)
        return mk('fuo', (a, a), 'B')

    def truncv(self, st, v, n, w):
        if isinstance(v, (Ptr, Fn)):
            v = self.addr(v)
        if is_c(v) and not isinstance(v, (Comp, FBits)):
            return v & mask(w)
        if isinstance(v, Comp):
            for p in v.parts:
                if p[0] == 0 and p[2] == 'i' and p[1] * 8 > w:
                    return self.truncv(st, p[3], p[1] * 8, w)
            if w % 8 == 0:
                parts = [p for p in v.parts if p[0] + p[1] <= w // 8]
                if sum(p[1] for p in parts) == w // 8:
                    if len(parts) == 1:
                        if parts[0][2] == 'i':
                            return parts[0][3]
                        return self.convert(st, parts[0][2], parts[0][3], w // 8, ('i', w))
                    return Comp(parts, w // 8)
            raise Unsupported('trunc composite')
        if isinstance(v, FBits):
            raise Unsupported('trunc float bits')
        if self.real:
            if w == 1:
                return rcmp('eq', iop('fmod', v, 2), 1)
            lo, hi = -(1 << w - 1), (1 << w - 1) - 1
            if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi:
                return v
            if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < 1 << w:
                # unsigned in range: signed representation
                return ite(rcmp('lt', v, 1 << w - 1), v, iop('sub', v, 1 << w), 'I')
            r = self.slice_sum(v, 0, w, n)
            if r is not None and r is not v:
                return self.truncv(st, r, n, w)
            if self.must(st, band(rcmp('le', lo, v), rcmp('le', v, hi))):
                r = v
                return r
            return iop('sub', iop('fmod', iop('add', v, 1 << w - 1), 1 << w), 1 << w - 1)
        if w == 1:
            return bveq(extract(v, 0, 0, n), 1, 1)
        return extract(v, w - 1, 0, n)

    def cast(self, st, op, fty, v, tty):
        if fty[0] == 'v' and tty[0] == 'v' and fty[1] == tty[1]:
            if op != 'bitcast' or fty[2][0] == tty[2][0]:
                return [self.cast(st, op, self.m.resolve(fty[2]), x, self.m.resolve(tty[2])) for x in v]
        if op == 'bitcast':
            if fty == tty or fty[0] == tty[0] == 'p':
                return v
            return self.bitcast(st, fty, v, tty)
        if op == 'trunc':
            return self.truncv(st, v, fty[1], tty[1])
        if op == 'zext':
            n, w = fty[1], tty[1]
            if n == 1:
                return self.b2i(v, w)
            if is_c(v):
                return v
            if isinstance(v, (Ptr, Fn)):
                return self.addr(v)
            if isinstance(v, FBits):
                return Comp([(0, n // 8, 'f', v.v), (n // 8, (w - n) // 8, 'i', 0)], w // 8)
            if isinstance(v, Comp):
                return Comp(v.parts + [(n // 8, (w - n) // 8, 'i', 0)], w // 8)
            if self.real:
                return self.unsignedv(st, v, n)
            return zext(v, n, w)
        if op == 'sext':
            n, w = fty[1], tty[1]
            if n == 1:
                if is_c(v):
                    return mask(w) if v else 0
                return ite(v, -1 if self.real else mask(w), 0, 'I' if self.real else ('V', w))
            if is_c(v):
                return sgn(v, n) & mask(w)
            if isinstance(v, (FBits, Comp)):
                raise Unsupported('sext bits')
            if self.real:
                return v
            return sext(v, n, w)
        if op in ('fpext', 'fptrunc'):
            if is_c(v):
                return f32(v) if tty[1] == 32 else v
            if self.real:
                return v
            if v.op == 'fcvt' and op == 'fptrunc' and v.args[0].sort == 'F32':
                return v.args[0]
            return mk('fcvt', (v,), 'F32' if tty[1] == 32 else 'F64')
        if op in ('sitofp', 'uitofp'):
            n = fty[1]
            if is_c(v):
                if op == 'sitofp':
                    v = sgn(v, n) if n > 1 else -v
                v = int(v)
                return f32(self.i2f(v)) if tty[1] == 32 else float(v)
            if n == 1:
                one = 1.0 if op == 'uitofp' else -1.0
                return ite(v, one, 0.0, self.sortof(tty))
            if self.real:
                if op == 'uitofp':
                    v = self.unsignedv(st, v, n)
                return mk('toreal', (v,), 'R', None if v.lo is None else float(v.lo),
                          None if v.hi is None else float(v.hi))
            return mk('sitof' if op == 'sitofp' else 'uitof', (v, n), 'F32' if tty[1] == 32 else 'F64')
        if op in ('fptosi', 'fptoui'):
            n = tty[1]
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if op == 'fptosi' else (0, (1 << n) - 1)
            if self.real and not is_c(v) and v.op in ('radd', 'rsub', 'rmul', 'rdiv'):
                v = self.fold_real(st, v)
            if is_c(v):
                if v != v or math.isinf(v) or not lo <= int(v) <= hi:
                    if self.fp2int:
                        raise Violation('fp2int', 'conversion of %r to a %d-bit integer' % (v, n))
                    return 0 if n < 32 else 1 << (n - 1)
                return int(v) & mask(n)
            if self.real:
                wide = v.lo is not None and v.hi is not None and v.hi - v.lo > 40
                k = self.pin_round(st, 'trunc', v) if self.fork_round and v.op != 'toreal' and not wide else None
                if k is not None and lo <= k <= hi:
                    return int(k) & mask(n)
                if v.op == 'toreal':
                    r = v.args[0]
                else:
                    r = mk('trunci', (v,), 'I', None if v.lo is None else int(v.lo), None if v.hi is None else int(v.hi))
                if not (r.lo is not None and r.hi is not None and r.lo >= lo and r.hi <= hi):
                    ok = band(rcmp('lt', float(lo) - 1, v), rcmp('lt', v, float(hi) + 1))
                    if not self.must(st, ok):
                        if self.fp2int:
                            if not self.decide(st, ok):
                                raise Violation('fp2int', 'float to %d-bit integer out of range' % n)
                        else:
                            if not self.decide(st, ok):
                                raise PathEnd('fp2int-assumed')
                    if v.op != 'toreal':
                        r = mk('trunci', (v,), 'I', lo if r.lo is None or r.lo < lo else r.lo,
                               hi if r.hi is None or r.hi > hi else r.hi)
                if op == 'fptoui' and (r.hi is None or r.hi >= 1 << n - 1):
                    r = ite(rcmp('lt', r, 1 << n - 1), r, iop('sub', r, 1 << n), 'I')
                return r
            if self.fp2int:
                fs = v.sort
                big = float(hi) + 1
                ok = band(self.fcmp(st, 'olt', fty, v, big),
                          self.fcmp(st, 'ogt', fty, v, float(lo) - 1.0 if n < 24 or fty[1] == 64 else
                                    math.nextafter(float(lo), -INF) if fty[1] == 64 else
                                    (bits32f(f32bits(float(lo)) + 1) if lo else -1.0)))
                if not self.decide(st, ok):
                    raise Violation('fp2int', 'float to %d-bit integer out of range' % n)
            return mk('ftosi' if op == 'fptosi' else 'ftoui', (v,), ('V', n))
        if op == 'ptrtoint':
            a = self.addr(v)
            if tty[1] != 64:
                return self.truncv(st, a, 64, tty[1])
            return a
        if op == 'inttoptr':
            return self.toptr(v)
        if op == 'addrspacecast':
            return v
        raise Unsupported('cast ' + op)

    def i2f(self, v):
        """int -> binary32 correctly rounded (avoid double rounding)"""
        if abs(v) < 1 << 53:
            return float(v)
        s = -1 if v < 0 else 1
        a = abs(v)
        k = a.bit_length() - 24
        q, r = a >> k, a & mask(k)
        h = 1 << (k - 1)
        if r > h or r == h and q & 1:
            q += 1
        return float(s * (q << k))

    def bitcast(self, st, fty, v, tty):
        def flat(t, x):
            if t[0] == 'v':
                e = self.m.resolve(t[2])
                return [(self.m.size(e), e[0], y) for y in x]
            return [(self.m.size(t) if t[0] != 'i' else (t[1] + 7) // 8, t[0], x)]
        if fty[0] == 'v' and fty[2] == ('i', 1):
            raise Unsupported('bitcast of mask vector')
        o = Obj()
        o.cells, o.fill, o.size, o.id, o.kind, o.name, o.alive, o.ro = {}, 0, 64, -1, 'tmp', '', True, False
        p = 0
        for s, k, x in flat(fty, v):
            if isinstance(x, Comp):
                for a, s2, k2, y in x.parts:
                    o.cells[p + a] = (s2, k2, y)
            elif isinstance(x, FBits):
                o.cells[p] = (s, 'f', x.v)
            else:
                o.cells[p] = (s, k, x)
            p += s
        if tty[0] == 'v':
            e = self.m.resolve(tty[2])
            es = self.m.size(e)
            return [self.rawload(st, o, i * es, e, es) for i in range(tty[1])]
        n = self.m.size(tty) if tty[0] != 'i' else (tty[1] + 7) // 8
        return self.rawload(st, o, 0, tty, n)

    def gep(self, st, bt, base, idx):
        m = self.m
        off = 0
        symoff = []
        ty = bt
        first = True
        for t, v in idx:
            if first:
                es = m.size(ty)
                first = False
            else:
                ty = m.resolve(ty)
                if ty[0] == 's':
                    off += m.offsets(ty)[0][v]
                    ty = ty[1][v]
                    continue
                ty = ty[2]
                es = m.size(ty)
            t = m.resolve(t)
            if isinstance(v, (Ptr, Fn)):
                v = self.addr(v)
            if type(v) is int:
                off += sgn(v, t[1]) * es
            elif isinstance(v, E):
                symoff.append((v, t[1], es))
            else:
                raise Unsupported('gep index')
        if isinstance(base, Fn):
            if off == 0 and not symoff:
                return base
            raise Unsupported('gep on function')
        if not symoff:
            return self.padd(base, off)
        p = base
        for v, n, es in symoff:
            if self.real:
                o = iop('mul', v, es)
                p = Ptr(p.obj, iop('add', self.sv(p.off, 64) if is_c(p.off) else p.off, o))
            else:
                o = bvop('mul', 64, sext(v, n, 64), es)
                p = Ptr(p.obj, bvop('add', 64, o, p.off))
        if self.real:
            return Ptr(p.obj, iop('add', p.off, off))
        return self.padd(p, off)

    # ------------------------------------------------------------ control
    def enter(self, st, fn, args, dst, ty, norm=None, unw=None, va=None):
        f = self.m.funcs[fn]
        if not f.parsed:
            self.m.parse_body(f)
        fr = Frame()
        fr.fn = f
        fr.regs = {}
        for (pt, nm, byval), a in zip(f.params, args):
            fr.regs[nm] = a
        fr.va = args[len(f.params):]
        fr.allocas = []
        fr.dst, fr.norm, fr.unw, fr.ty = dst, norm, unw, ty
        fr.prev = None
        fr.blk = f.entry
        fr.code = f.blocks[f.entry]
        fr.ip = 0
        fr.loops = None
        st.frames.append(fr)
        self.R.funcs.add(fn)
        if len(st.frames) > 400:
            raise Violation('recursion', 'call depth exceeds 400 in ' + fn)

    def jump(self, st, fr, lab):
        fr.prev = fr.blk
        fr.blk = lab
        fr.code = fr.fn.blocks[lab]
        fr.ip = 0
        # phis (parallel)
        code = fr.code
        if code[0][0] == 'phi':
            vals = []
            i = 0
            while code[i][0] == 'phi':
                ins = code[i]
                vals.append((ins[1], self.op(st, fr, ins[2], ins[3][fr.prev])))
                i += 1
            for d, v in vals:
                fr.regs[d] = v
            fr.ip = i

    def do_return(self, st, v):
        fr = st.frames.pop()
        for oid in fr.allocas:
            o = self.wobj(st, oid)
            o.alive = False
            o.cells = {}
        if not st.frames:
            raise PathEnd('ok')
        c = st.frames[-1]
        if fr.dst is not None:
            c.regs[fr.dst] = v
        if fr.norm is not None:
            self.jump(st, c, fr.norm)

    def find_stub(self, name):
        s = self.stub_cache.get(name)
        if s is not None or name in self.stub_cache:
            return s
        s = self.user.get(name)
        if s is None:
            s = self.builtins.get(name)
            if s is not None and name in self.m.funcs and not getattr(s, 'force', False):
                s = None
        if s is None:
            for rx, fn in self.patterns:
                if rx.match(name):
                    s = fn
                    break
        self.stub_cache[name] = s
        return s

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.code[fr.ip]
        op = ins[0]
        st.steps += 1
        self.R.steps += 1
        regs = fr.regs
        if op == 'load':
            regs[ins[1]] = self.load(st, ins[2], self.op(st, fr, ('p',), ins[3]))
        elif op == 'store':
            self.store(st, ins[2], self.op(st, fr, ins[2], ins[3]), self.op(st, fr, ('p',), ins[4]))
        elif op == 'gep':
            b = self.op(st, fr, ('p',), ins[3])
            regs[ins[1]] = self.gep(st, ins[2], b, [(t, self.op(st, fr, t, v)) for t, v in ins[4]])
        elif op == 'bin':
            regs[ins[1]] = self.binop(st, ins[2], ins[3], self.op(st, fr, ins[3], ins[4]),
                                      self.op(st, fr, ins[3], ins[5]), ins[6])
        elif op == 'icmp':
            regs[ins[1]] = self.icmp(st, ins[2], ins[3], self.op(st, fr, ins[3], ins[4]),
                                     self.op(st, fr, ins[3], ins[5]))
        elif op == 'fcmp':
            regs[ins[1]] = self.fcmp(st, ins[2], ins[3], self.op(st, fr, ins[3], ins[4]),
                                     self.op(st, fr, ins[3], ins[5]))
        elif op == 'cast':
            regs[ins[1]] = self.cast(st, ins[2], ins[3], self.op(st, fr, ins[3], ins[4]), ins[5])
        elif op == 'br':
            c = self.op(st, fr, ('i', 1), ins[2])
            lab = ins[3] if self.decide(st, c) else ins[4]
            self.jump(st, fr, lab)
            return
        elif op == 'jmp':
            self.jump(st, fr, ins[2])
            return
        elif op == 'select':
            c = self.op(st, fr, ins[2], ins[3])
            a = self.op(st, fr, ins[4], ins[5])
            b = self.op(st, fr, ins[4], ins[6])
            if ins[2][0] == 'v':
                e = self.m.resolve(ins[4][2])
                regs[ins[1]] = [self.select(st, x, e, p, q) for x, p, q in zip(c, a, b)]
            else:
                regs[ins[1]] = self.select(st, c, ins[4], a, b)
        elif op == 'call':
            self.call(st, fr, ins)
            return
        elif op == 'ret':
            v = None if ins[2] is None else self.op(st, fr, ins[2], ins[3])
            self.do_return(st, v)
            return
        elif op == 'alloca':
            n = 1
            if ins[3] is not None:
                n = self.op(st, fr, ins[3][0], ins[3][1])
                n = self.concretize(st, n)
            o = self.new_obj(st, self.m.size(ins[2]) * n, 'stack', fr.fn.name[:40] + ':%' + str(ins[1]))
            fr.allocas.append(o.id)
            regs[ins[1]] = Ptr(o.id, 0)
        elif op == 'switch':
            v = self.op(st, fr, ins[2], ins[3])
            n = ins[2][1]
            if is_c(v):
                lab = ins[4]
                for cv, l in ins[5]:
                    if cv == v:
                        lab = l
                        break
            else:
                lab = None
                for cv, l in ins[5]:
                    c = rcmp('eq', v, sgn(cv, n)) if self.real else bveq(v, cv, n)
                    if self.decide(st, c):
                        lab = l
                        break
                if lab is None:
                    lab = ins[4]
            self.jump(st, fr, lab)
            return
        elif op == 'fneg':
            v = self.op(st, fr, ins[2], ins[3])
            regs[ins[1]] = [self.fneg(x) for x in v] if isinstance(v, list) else self.fneg(v)
        elif op == 'extractvalue':
            v = self.op(st, fr, ins[2], ins[3])
            for i in ins[4]:
                v = v[i]
            regs[ins[1]] = v
        elif op == 'insertvalue':
            v = self.op(st, fr, ins[2], ins[3])
            e = self.op(st, fr, ins[4], ins[5])
            regs[ins[1]] = self.insv(v, e, ins[6])
        elif op == 'extractelement':
            v = self.op(st, fr, ins[2], ins[3])
            i = self.op(st, fr, ins[4], ins[5])
            regs[ins[1]] = v[self.concretize(st, i)]
        elif op == 'insertelement':
            v = list(self.op(st, fr, ins[2], ins[3]))
            e = self.op(st, fr, ins[4], ins[5])
            v[self.concretize(st, self.op(st, fr, ins[6], ins[7]))] = e
            regs[ins[1]] = v
        elif op == 'shufflevector':
            a = self.op(st, fr, ins[2], ins[3])
            b = self.op(st, fr, ins[2], ins[4])
            ab = list(a) + list(b)
            regs[ins[1]] = [self.zero(ins[2][2]) if i is None else ab[i] for i in ins[5]]
        elif op == 'freeze':
            regs[ins[1]] = self.op(st, fr, ins[2], ins[3])
        elif op == 'unreachable':
            raise PathEnd('unreachable')
        elif op == 'atomicrmw':
            p = self.op(st, fr, ('p',), ins[4])
            v = self.op(st, fr, ins[3], ins[5])
            old = self.load(st, ins[3], p)
            r = v if ins[2] == 'xchg' else self.binop(st, ins[2], ins[3], old, v, ())
            self.store(st, ins[3], r, p)
            regs[ins[1]] = old
        elif op == 'cmpxchg':
            p = self.op(st, fr, ('p',), ins[3])
            c = self.op(st, fr, ins[2], ins[4])
            v = self.op(st, fr, ins[2], ins[5])
            old = self.load(st, ins[2], p)
            eq = self.decide(st, self.icmp(st, 'eq', ins[2], old, c))
            if eq:
                self.store(st, ins[2], v, p)
            regs[ins[1]] = [old, int(eq)]
        elif op == 'nop':
            pass
        elif op == 'landingpad' or op == 'resume':
            raise PathEnd('throw')
        elif op == 'asm':
            self.R.notes.add('asm ignored')
            if ins[1] is not None:
                raise Unsupported('asm')
        else:
            raise Unsupported('instruction %s' % (ins,))
        fr.ip += 1

    def insv(self, v, e, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insv(v[idx[0]], e, idx[1:])
        return v

    def select(self, st, c, ty, a, b):
        if is_c(c):
            return a if c else b
        k = st.known.get(c.id)
        if k is not None:
            return a if k else b
        if ty[0] in ('i', 'f') and not isinstance(a, (Ptr, Fn, FBits, Comp)) and not isinstance(b, (Ptr, Fn, FBits, Comp)):
            if self.real and ty[0] == 'f' and (self.isspecial(a) or self.isspecial(b)):
                return a if self.decide(st, c) else b
            if self.real and ty[0] == 'i' and ty[1] > 1:
                a, b = self.sv(a, ty[1]), self.sv(b, ty[1])
            return ite(c, a, b, self.sortof(ty))
        return a if self.decide(st, c) else b

    def call(self, st, fr, ins):
        _, dst, ty, callee, args, norm, unw = ins
        if callee[0] == 'g':
            name = callee[1]
        else:
            p = self.op(st, fr, ('p',), callee)
            if isinstance(p, Ptr):
                raise Violation('memory', 'call through a data pointer')
            name = p.name
        while name in self.m.aliases:
            name = self.m.aliases[name][1]
        av = []
        for at, ao, byval in args:
            v = self.op(st, fr, at, ao)
            av.append(v)
        stub = self.find_stub(name)
        if stub is not None:
            r = stub(self, st, av, args, ty, name)
            if r is CONT:
                return
            if dst is not None:
                fr.regs[dst] = r
            if norm is not None:
                self.jump(st, fr, norm)
            else:
                fr.ip += 1
            return
        if name not in self.m.funcs:
            raise Unsupported('call of external %s' % name)
        # byval copies
        for i, (at, ao, byval) in enumerate(args):
            if byval is not None:
                n = self.m.size(byval)
                o = self.new_obj(st, n, 'stack', 'byval')
                self.memcpy(st, Ptr(o.id, 0), av[i], n)
                fr.allocas.append(o.id)
                av[i] = Ptr(o.id, 0)
        if norm is None:
            fr.ip += 1
        self.enter(st, name, av, dst, ty, norm, unw)

    # ------------------------------------------------------------ run
    def run(self):
        st = State()
        self.init_globals(st)
        # constructors
        ctors = self.m.globals.get('llvm.global_ctors')
        todo = []
        if ctors and ctors[1] and ctors[1][0] == 'agg':
            for t, v in ctors[1][1]:
                if v[0] == 'agg':
                    todo.append((v[1][0][1][1], v[1][1][1][1]))
        todo.sort(key=lambda x: x[0])
        for _, fn in todo:
            self.enter(st, fn, [], None, ('void',))
            try:
                while True:
                    self.step(st)
            except PathEnd as e:
                if e.kind != 'ok':
                    raise Unsupported('constructor %s ended %s' % (fn, e.kind))
            except NeedFork:
                raise Unsupported('constructor forks')
        st.steps = 0
        self.enter(st, self.entry, [], None, ('void',))
        work = [st]
        R = self.R
        while work:
            if time.time() > self.deadline:
                R.complete = False
                R.inconclusive.append('time budget exhausted with %d open paths' % len(work))
                break
            if R.paths > self.max_paths or R.steps > self.max_steps:
                R.complete = False
                R.inconclusive.append('path/step budget exhausted with %d open paths' % len(work))
                break
            st = work.pop()
            self.run_path(st, work)
        return R

    def end(self, st, kind, msg=''):
        R = self.R
        R.paths += 1
        R.ends[kind] = R.ends.get(kind, 0) + 1
        if kind in ('ok',):
            new = [r for r in st.reach if r not in R.witness]
            R.reached.update(st.reach)
            if new or not R.witness and not st.reach and not R.outs:
                self.witness(st, new)
            if self.asg is not None:
                R.outs.append(st.outs)
        if self.verbose:
            print('  path end', kind, msg, 'steps', st.steps, 'pc', len(st.pc))

    def witness(self, st, labels):
        """a solver-confirmed input reaching the end of this path (vacuity guard)"""
        if self.asg is not None:
            return
        n = self.wtries.get(tuple(labels), 0)
        if n >= 8:
            return
        self.wtries[tuple(labels)] = n + 1
        r, asg = None, None
        if self.real:
            asg = self.search(st, 0.4)
        if asg is None:
            r, asg = self.solve(st, 1, timeout=min(self.timeout, 10000))
            if r == 'unknown' and self.real:
                asg = self.search(st, 6.0)
            elif r != 'sat':
                return
        if asg is None:
            return
        full = dict(asg)
        for nm, e, k in st.inputs:
            if is_c(e):
                full[nm] = e
        outs = []
        memo = {}
        for nm, v in st.outs:
            try:
                x = X.ev(v, asg, memo) if isinstance(v, E) else v
                if isinstance(x, int) and not isinstance(v, float):
                    x = sgn(x & M64, 64) if x >= 0 else x
            except Exception:
                x = None
            outs.append((nm, None if x is None else float(x)))
        for l in labels or ['end']:
            self.R.witness[l] = (full, outs)

    def search(self, st, budget):
        """an input satisfying the path condition, by guided resampling (only used for vacuity witnesses)"""
        rnd = random.Random('%s/search/%d' % (self.seed, len(st.pc)))
        ins = [(n, e, k) for n, e, k in st.inputs if not is_c(e)]
        if not ins:
            return None

        def draw(e, k):
            lo, hi = e.lo, e.hi
            if k == 'f':
                L = max(lo if lo is not None else -100.0, -1e6)
                H = min(hi if hi is not None else 100.0, 1e6)
                v = rnd.uniform(L, H)
                q = rnd.random()
                if q < 0.1:
                    v = round(v)
                elif q < 0.15:
                    v = L if q < 0.125 else H
                return min(max(f32(v), L), H)
            try:
                lo = 0 if lo is None else int(lo)
                hi = 1 if hi is None else int(hi)
                return rnd.randint(lo, hi)
            except Exception:
                return 0

        def score(a):
            memo = {}
            for i, c in enumerate(st.pc):
                try:
                    if X.ev(c, a, memo) != 1:
                        return i
                except Exception:
                    return i
            return len(st.pc)

        isb = lambda c: not is_c(c) and c.op == 'var' and c.sort == 'B'
        free = {}      # choices are free booleans: their literals hold by construction
        for c in st.pc:
            if isb(c):
                free[c.args[0]] = 1
            elif not is_c(c) and c.op == 'not' and isb(c.args[0]):
                free[c.args[0].args[0]] = 0
        n = len(st.pc)
        t1 = time.time() + budget
        best, cur = -1, None
        while time.time() < t1:
            stale = 0
            cur = {nm: draw(e, k) for nm, e, k in ins}
            cur.update(free)
            for i in st.pool or ():
                cur.update({nm: v for nm, v in self.samples[i][0].items() if nm in cur})
                break
            best = score(cur)
            while best < n and stale < 300 and time.time() < t1:
                a = dict(cur)
                small = rnd.random() < 0.5
                for nm, e, k in rnd.sample(ins, min(len(ins), rnd.choice((1, 1, 2, 3)))):
                    if small and k == 'f':
                        v = a[nm] + rnd.gauss(0, 0.2)
                        L = e.lo if e.lo is not None else v
                        H = e.hi if e.hi is not None else v
                        a[nm] = min(max(f32(v), L), H)
                    else:
                        a[nm] = draw(e, k)
                s = score(a)
                if s > best:
                    stale = 0
                else:
                    stale += 1
                if s >= best:
                    best, cur = s, a
            if best == n:
                return cur
        return None

    def run_path(self, st, work):
        n0 = 0
        while True:
            try:
                while True:
                    self.step(st)
                    n0 += 1
                    if n0 & 0x3fff == 0:
                        if time.time() > self.deadline:
                            work.append(st)
                            return
                        if st.steps > self.path_steps:
                            raise Violation('bound', 'path exceeds %d steps' % self.path_steps)
            except NeedFork as f:
                c = f.c
                r = self.fork_on(st, c)
                if r is None:
                    self.end(st, 'assume')
                    return
                if isinstance(r, State):
                    work.append(r)
            except PathEnd as e:
                self.end(st, e.kind, e.msg)
                return
            except Violation as v:
                self.violation(st, v.kind + ': ' + v.msg, 1, v.kind)
                self.end(st, 'violation', v.msg)
                return
            except Unsupported as u:
                self.R.complete = False
                where = st.frames[-1].fn.name if st.frames else '?'
                m = 'unsupported: %s (in %s)' % (u, where)
                if m not in self.R.inconclusive:
                    self.R.inconclusive.append(m)
                self.end(st, 'unsupported', str(u))
                return

    def fork_on(self, st, c):
        """decide c on st; returns State (other side), True (only one side), None (infeasible)"""
        mv = self.evalm(st, c) if st.model_ok else None
        t = f = None
        tm = fm = None
        if mv == 1:
            t, tm = 'sat', st.model
        elif mv == 0:
            f, fm = 'sat', st.model
        if t is None:
            i = self.pool_find(st, c, 1)
            if i is not None:
                t, tm = 'sat', dict(self.samples[i][0])
        if f is None:
            i = self.pool_find(st, c, 0)
            if i is not None:
                f, fm = 'sat', dict(self.samples[i][0])
        if t is None:
            t, tm = self.feasible(st, c)
        if f is None:
            if t == 'unsat':
                f, fm = 'sat', st.model   # pc itself is assumed satisfiable
                if not st.model_ok:
                    fm = None
            else:
                f, fm = self.feasible(st, bnot(c))
        if t == 'unsat' and f == 'unsat':
            return None
        if t == 'unsat':
            self.learn(st, c, 0)
            if c.op not in ('not',):
                pass
            return True
        if f == 'unsat':
            self.learn(st, c, 1)
            return True
        o = st.fork()
        self.push(o, bnot(c))
        self.push(st, c)
        if tm is not None:
            if tm is not st.model:
                st.model = tm
                st.memo = {}
            st.model_ok = True
        else:
            st.model_ok = False
        if fm is not None:
            if fm is not o.model:
                o.model = fm
                o.memo = {}
            o.model_ok = True
        else:
            o.model_ok = False
        return o

    # ------------------------------------------------------------ assertions
    def violation(self, st, aid, cond_neg, kind='assert'):
        """cond_neg: E that is true when the property is broken on this path"""
        R = self.R
        if aid in self.confirmed:
            return
        if self.asg is not None:
            R.violations.append({'id': aid, 'asg': dict(self.asg), 'kind': kind, 'confirmed': True})
            return
        if self.real and not is_c(cond_neg):
            r, asg = self.split_solve(st, cond_neg)
        else:
            r, asg = self.solve(st, cond_neg)
        if r == 'unsat':
            R.asserts[aid] = R.asserts.get(aid, 0) + 1
            return
        if r != 'sat':
            R.complete = False
            R.inconclusive.append('solver %s for %s' % (r, aid))
            return
        v = {'id': aid, 'asg': asg, 'kind': kind, 'where': [f.fn.name for f in st.frames][-4:], 'confirmed': None}
        if self.on_violation:
            ok = self.on_violation(self, st, cond_neg, v)
            v['confirmed'] = ok
            if ok:
                self.confirmed.add(aid)
                R.violations.append(v)
            else:
                R.unconfirmed.append(v)
                R.complete = False
                k = self.unc_count.get(aid, 0) + 1
                self.unc_count[aid] = k
                if k >= self.max_unconfirmed:
                    self.confirmed.add(aid)       # stop spending time on this one
        else:
            self.confirmed.add(aid)
            R.violations.append(v)

    def do_assert(self, st, c, aid):
        if is_c(c):
            if c:
                self.R.asserts[aid] = self.R.asserts.get(aid, 0) + 1
            else:
                self.violation(st, aid, 1)
            return
        k = st.known.get(c.id)
        if k == 1:
            self.R.asserts[aid] = self.R.asserts.get(aid, 0) + 1
            return
        self.violation(st, aid, bnot(c))
        # continue assuming it
        if k is None:
            self.push(st, c)
            st.model_ok = False


class _Cont:
    pass


CONT = _Cont()
