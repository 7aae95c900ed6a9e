"""Rational-function normal form of real-mode terms (sound simplification before
the solver is asked): inputs, sqrt and other non-polynomial terms are atoms,
s*s is rewritten to its radicand for sqrt atoms."""
from fractions import Fraction
from expr import E, is_c, Unsupported
import math


class TooBig(Exception):
    pass


LIM = 6000


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    r = []
    i = j = 0
    while i < len(m) and j < len(n):
        if m[i][0] == n[j][0]:
            r.append((m[i][0], m[i][1] + n[j][1]))
            i += 1
            j += 1
        elif m[i][0] < n[j][0]:
            r.append(m[i])
            i += 1
        else:
            r.append(n[j])
            j += 1
    r.extend(m[i:])
    r.extend(n[j:])
    return tuple(r)


ONE = {(): Fraction(1)}


class Normaliser:
    def __init__(self, known):
        self.known = known
        self.memo = {}
        self.sq = {}      # atom id -> (num, den) of the radicand
        self.atoms = {}

    def pmul(self, a, b):
        if len(a) * len(b) > LIM * 40:
            raise TooBig()
        if len(a) == 1:
            (m, c), = a.items()
            if m == ():
                if c == 1:
                    return b
                return {n: c * d for n, d in b.items()}
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = mmul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        if len(r) > LIM:
            raise TooBig()
        return r

    def reduce(self, n, d):
        """rewrite s^2 in numerator and denominator"""
        for _ in range(40):
            ch = False
            for which in (0, 1):
                p = d if which else n
                hit = None
                for m in p:
                    for a, e in m:
                        if e >= 2 and a in self.sq:
                            hit = a
                            break
                    if hit is not None:
                        break
                if hit is None:
                    continue
                ch = True
                sn, sd = self.sq[hit]
                # p = sum coeff * s^e ; s^e = (sn/sd)^(e//2) * s^(e%2)
                mx = 0
                parts = {}
                for m, c in p.items():
                    e = 0
                    rest = []
                    for a, x in m:
                        if a == hit:
                            e = x
                        else:
                            rest.append((a, x))
                    k = e // 2
                    mx = max(mx, k)
                    if e & 1:
                        rest = sorted(rest + [(hit, 1)])
                    q = parts.setdefault(k, {})
                    mm = tuple(rest)
                    q[mm] = q.get(mm, 0) + c
                tot = {}
                pn = [ONE]
                pd = [ONE]
                for i in range(mx):
                    pn.append(self.pmul(pn[-1], sn))
                    pd.append(self.pmul(pd[-1], sd))
                for k, q in parts.items():
                    tot = padd(tot, self.pmul(self.pmul(q, pn[k]), pd[mx - k]))
                if which:
                    d = tot
                    n = self.pmul(n, pd[mx])
                else:
                    n = tot
                    d = self.pmul(d, pd[mx])
            if not ch:
                return n, d
        return n, d

    def cancel(self, n, d):
        """cheap cancellation: constants, identical polys, common monomial"""
        if not n:
            return {}, ONE
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {k: v / c for k, v in n.items()}
                d = {m: Fraction(1)}
        elif len(d) == len(n) and d.keys() == n.keys():
            it = iter(d)
            k = next(it)
            r = n[k] / d[k]
            if all(n[m] == r * d[m] for m in d):
                return {(): r}, ONE
        # common monomial
        common = None
        for p in (n, d):
            for m in p:
                dm = dict(m)
                if common is None:
                    common = dm
                else:
                    common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
                if not common:
                    break
            if not common:
                break
        if common:
            def dv(p):
                r = {}
                for m, c in p.items():
                    mm = tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0))
                    r[mm] = c
                return r
            n, d = dv(n), dv(d)
        return n, d

    def atom(self, x):
        self.atoms[x.id] = x
        return {((x.id, 1),): Fraction(1)}, ONE

    def norm(self, x):
        if is_c(x):
            if isinstance(x, float) and (x != x or math.isinf(x)):
                raise TooBig()
            return ({(): Fraction(x)} if x != 0 else {}), ONE
        stack = [x]
        memo = self.memo
        while stack:
            y = stack[-1]
            if y.id in memo:
                stack.pop()
                continue
            if y.op == 'ite':
                k = self.known.get(y.args[0].id)
                if k is None and y.args[0].op == 'not':
                    k = self.known.get(y.args[0].args[0].id)
                    k = None if k is None else 1 - k
                deps = [y.args[1] if k else y.args[2]] if k is not None else []
            elif y.op in ('radd', 'rsub', 'rmul', 'rdiv', 'neg', 'sqrt'):
                deps = list(y.args)
            else:
                deps = []
            todo = [a for a in deps if isinstance(a, E) and a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            memo[y.id] = self.n1(y, deps)
        return memo[x.id]

    def get(self, a):
        if is_c(a):
            return self.norm(a)
        return self.memo[a.id]

    def n1(self, y, deps):
        op = y.op
        if op == 'ite':
            return self.get(deps[0]) if deps else self.atom(y)
        if op == 'neg':
            n, d = self.get(y.args[0])
            return {m: -c for m, c in n.items()}, d
        if op in ('radd', 'rsub'):
            (n1, d1), (n2, d2) = self.get(y.args[0]), self.get(y.args[1])
            k = 1 if op == 'radd' else -1
            if d1 == d2:
                n, d = padd(n1, n2, k), d1
            else:
                n, d = padd(self.pmul(n1, d2), self.pmul(n2, d1), k), self.pmul(d1, d2)
            return self.cancel(*self.reduce(n, d))
        if op == 'rmul':
            (n1, d1), (n2, d2) = self.get(y.args[0]), self.get(y.args[1])
            n1, d2 = self.cancel(n1, d2)
            n2, d1 = self.cancel(n2, d1)
            return self.cancel(*self.reduce(self.pmul(n1, n2), self.pmul(d1, d2)))
        if op == 'rdiv':
            (n1, d1), (n2, d2) = self.get(y.args[0]), self.get(y.args[1])
            if not n2:
                raise TooBig()
            return self.cancel(*self.reduce(self.pmul(n1, d2), self.pmul(d1, n2)))
        if op == 'sqrt':
            n, d = self.get(y.args[0])
            if not n:
                return {}, ONE
            if n == d:
                return ONE, ONE
            r = self.atom(y)
            self.sq[y.id] = (n, d)
            return r
        if op in ('t_sin', 't_cos'):
            r = self.atom(y)
            if op == 't_sin':
                # sin^2 = 1 - cos^2
                from expr import mk
                c = mk('t_cos', y.args, 'R', -1.0, 1.0)
                self.atoms[c.id] = c
                self.sq[y.id] = ({(): Fraction(1), ((c.id, 2),): Fraction(-1)}, ONE)
            return r
        return self.atom(y)


def psign(nz, p):
    """+1: evidently >= 0, -1: evidently <= 0, 0: unknown (every term a product of squares and non-negative atoms)"""
    sg = 0
    for m, c in p.items():
        k = 1 if c > 0 else -1
        if sg and k != sg:
            return 0
        sg = k
        for a, e in m:
            if e & 1:
                if a in nz.sq and nz.atoms[a].op == 'sqrt':
                    continue
                x = nz.atoms.get(a)
                if x is None or x.lo is None or x.lo < 0:
                    return 0
    return sg


def decide_cmp(known, c, norm=None):
    """truth value of a comparison by normalisation, or None"""
    nz = norm or Normaliser(known)
    try:
        a, b = c.args
        n1, d1 = nz.norm(a)
        n2, d2 = nz.norm(b)
        if d1 == d2:
            n = padd(n1, n2, -1)
            d = d1
        else:
            n = padd(nz.pmul(n1, d2), nz.pmul(n2, d1), -1)
            d = nz.pmul(d1, d2)
        n, d = nz.cancel(*nz.reduce(n, d))
    except TooBig:
        return None
    if not n:
        v = Fraction(0)
    elif c.op in ('lt', 'le') and (sg := psign(nz, n) * psign(nz, d)) and (sg > 0) == (c.op == 'lt'):
        return int(sg < 0)     # a-b >= 0 refutes a < b; a-b <= 0 gives a <= b
    elif d == ONE and len(n) == 1 and () in n:
        v = n[()]
    else:
        return None
    return int(v < 0 if c.op == 'lt' else v <= 0 if c.op == 'le' else v == 0)


def simplify_bool(known, e, nz=None, memo=None):
    """replace comparisons decided by normalisation"""
    from expr import band, bor, bnot, bxor, ite
    if is_c(e):
        return e
    if nz is None:
        nz = Normaliser(known)
        memo = {}
    if e.id in memo:
        return memo[e.id]
    k = known.get(e.id)
    if k is not None:
        r = k
    elif e.op in ('lt', 'le', 'eq') and any(isinstance(a, E) and a.sort == 'R' for a in e.args):
        r = decide_cmp(known, e, nz)
        r = e if r is None else r
    elif e.op == 'not':
        r = bnot(simplify_bool(known, e.args[0], nz, memo))
    elif e.op in ('and', 'or', 'xor'):
        a = simplify_bool(known, e.args[0], nz, memo)
        b = simplify_bool(known, e.args[1], nz, memo)
        r = {'and': band, 'or': bor, 'xor': bxor}[e.op](a, b)
    elif e.op == 'ite' and e.sort == 'B':
        r = ite(simplify_bool(known, e.args[0], nz, memo), simplify_bool(known, e.args[1], nz, memo),
                simplify_bool(known, e.args[2], nz, memo), 'B')
    else:
        r = e
    memo[e.id] = r
    return r


class Cutter:
    """generalisation: sub-terms equal (as polynomials, up to a factor) to a declared cut become one fresh
    variable.  Dropping the definition only loses facts, so unsat carries over to the original query."""

    def __init__(self):
        self.nz = Normaliser({})
        self.tab = {}
        self.memo = {}
        self.n = 0
        self.rules = []
        self.raw = set()

    def key(self, x):
        try:
            n, d = self.nz.norm(x)
        except TooBig:
            return None
        if not n or not any(n):
            return None
        m = min(k for k in n if k != ()) if any(k != () for k in n) else ()
        l = n[m]
        return frozenset((k, c / l) for k, c in n.items()), l, d

    def back(self, p):
        """term of a polynomial over (cut) atoms"""
        from expr import rop
        t = None
        for m, c in p.items():
            u = float(c)
            if Fraction(u) != c:
                return None
            for a, e in m:
                x = self.nz.atoms.get(a)
                if x is None:
                    return None
                x = self.sub(x)
                for _ in range(e):
                    u = rop('mul', u, x)
            t = u if t is None else rop('add', t, u)
        return t

    def add(self, x):
        from expr import var
        if is_c(x) or x.op == 'var':
            return False
        k = self.key(x)
        if k is None or k[0] in self.tab or k[2] != ONE:
            return False
        v = var('cut!%d' % self.n, 'R', None if x.lo is None else float(x.lo), None if x.hi is None else float(x.hi))
        self.n += 1
        self.tab[k[0]] = (v, k[1])
        n, d = self.nz.norm(x)
        va = self.nz.atom(v)[0]
        (vm, _), = va.items()
        n, _ = self.rules_apply(n)
        cand = [m for m in n if m]
        if cand:
            lead = max(cand, key=lambda m: (sum(e for a, e in m), [(-a, e) for a, e in m]))
            c = n[lead]
            rest = {m: -k / c for m, k in n.items() if m != lead}
            rest[vm] = rest.get(vm, 0) + 1 / c
            self.rules.append((dict(lead), rest))
            for m in n:
                for a, e in m:
                    if not self.nz.atoms[a].op == 'var' or not self.nz.atoms[a].args[0].startswith('cut!'):
                        self.raw.add(a)
        self.memo = {}
        return True

    def rawnames(self):
        from expr import fvars
        r = set()
        for a in self.raw:
            x = self.nz.atoms[a]
            r |= set(fvars(x))
        return r

    def rules_apply(self, p):
        used = False
        for _ in range(400):
            hit = None
            for m in p:
                if len(m) == 0:
                    continue
                dm = dict(m)
                for lead, rest in self.rules:
                    if all(dm.get(a, 0) >= e for a, e in lead.items()):
                        hit = (m, dm, lead, rest)
                        break
                if hit:
                    break
            if not hit:
                return p, used
            used = True
            m, dm, lead, rest = hit
            c = p[m]
            p = dict(p)
            del p[m]
            left = tuple((a, e - lead.get(a, 0)) for a, e in m if e - lead.get(a, 0))
            for k, v in rest.items():
                mm = mmul(left, k)
                w = p.get(mm, 0) + v * c
                if w:
                    p[mm] = w
                else:
                    p.pop(mm, None)
            if len(p) > 600:
                break
        return p, False

    def reduced(self, x):
        """x with the cut variables in place of the raw ones, when that removes all of them"""
        try:
            n, d = self.nz.norm(x)
        except TooBig:
            return None
        if len(n) > 300 or len(d) > 300:
            return None
        n, u1 = self.rules_apply(n)
        d, u2 = self.rules_apply(d)
        if not (u1 or u2):
            return None
        if any(a in self.raw for p in (n, d) for m in p for a, e in m):
            return None
        if not n:
            return 0.0
        n, d = self.nz.cancel(n, d)
        from expr import rop
        t = self.back(n)
        if t is None:
            return None
        if d != ONE:
            q = self.back(d)
            t = None if q is None else rop('div', t, q)
        return t

    def alias(self, x):
        """write terms equal to x (up to a factor) the way x is written (no information is lost)"""
        from expr import rebuild
        if is_c(x) or x.op == 'var':
            return False
        k = self.key(x)
        if k is None or k[0] in self.tab or k[2] != ONE:
            return False
        self.tab[k[0]] = (rebuild(x, [self.sub(y) if isinstance(y, E) else y for y in x.args]), k[1])
        self.memo = {}
        return True

    def sub(self, e):
        from expr import rebuild, rop
        if is_c(e):
            return e
        memo = self.memo
        stack = [e]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.sort == 'R' and x.op in ('radd', 'rsub', 'rmul', 'rdiv', 'neg') and ('k', x.id) not in memo:
                k = self.key(x)
                h = self.tab.get(k[0]) if k is not None else None
                if h is not None:
                    f = k[1] / h[1]
                    r = h[0] if f == 1 else rop('mul', h[0], float(f)) if Fraction(float(f)) == f else None
                    if r is not None and k[2] != ONE:
                        q = self.back(k[2])
                        r = None if q is None else rop('div', r, self.sub(q) if isinstance(q, E) else q)
                    if r is not None:
                        memo[x.id] = r
                        stack.pop()
                        continue
                if self.rules:
                    r = self.reduced(x)
                    if r is not None:
                        memo[x.id] = r
                        stack.pop()
                        continue
                memo[('k', x.id)] = 1
            todo = [a for a in x.args if isinstance(a, E) and a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            a = [memo[y.id] if isinstance(y, E) else y for y in x.args]
            if all(p is q for p, q in zip(a, x.args)):
                memo[x.id] = x
            else:
                memo[x.id] = rebuild(x, a)
        return memo[e.id]
