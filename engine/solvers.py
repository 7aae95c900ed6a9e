"""Solver portfolio used to decide path-condition & negated-property queries."""
import time
import z3

STAT = {}


def _t(s, ms):
    s.set('timeout', max(1, int(ms)))


def _run(s, cons, ms):
    _t(s, ms)
    s.add(cons)
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.sat:
        return 'sat', s.model()
    return str(r), None


def check(cons, mode, ms, seed=1):
    if not cons:
        s = z3.Solver()
        s.check()
        return 'sat', s.model()
    t0 = time.time()
    if mode == 'bv':
        s = z3.Solver()
        s.set('random_seed', seed)
        r, m = _run(s, cons, ms)
        STAT[('z3', r)] = STAT.get(('z3', r), 0) + 1
        return r, m
    # real arithmetic: alternate engines with growing budgets
    budget = ms
    ints = None
    plan = [('smt', 0.1), ('nlsat', 0.25), ('cvc5', 0.25), ('smt2', 0.4)]
    for kind, fr in plan:
        left = budget - (time.time() - t0) * 1000
        if left <= 50:
            break
        lim = min(left, max(300, fr * budget))
        if kind == 'smt':
            s = z3.SimpleSolver()
            s.set('random_seed', seed)
            r, m = _run(s, cons, lim)
        elif kind == 'smt2':
            s = z3.Solver()
            s.set('random_seed', seed + 7)
            r, m = _run(s, cons, lim)
        elif kind == 'nlsat':
            if ints is None:
                ints = has_int(cons)
            rel = False
            if ints:
                rc = relax(cons)
                if rc is None:
                    continue
                rel = True
            try:
                s = z3.Then(z3.With('simplify', som=False), 'propagate-values', 'solve-eqs', 'elim-term-ite',
                            'tseitin-cnf', 'qfnra-nlsat').solver()
                r, m = _run(s, rc if rel else cons, lim)
                if rel and r == 'sat':
                    r = 'unknown'
            except z3.Z3Exception:
                continue
        else:
            r, m = run_cvc5(cons, lim)
        STAT[(kind, r)] = STAT.get((kind, r), 0) + 1
        if r in ('sat', 'unsat'):
            return r, m
    return 'unknown', None


def relax(cons):
    """the constraints with every integer taken as a real (implied by the original: good for unsat only), or None"""
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        k = x.decl().kind() if z3.is_app(x) else None
        if z3.is_int(x) and k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
            r = z3.Real('relaxed!' + x.decl().name())
        elif z3.is_int_value(x):
            r = z3.RealVal(x.as_long())
        elif k == z3.Z3_OP_TO_REAL:
            r = go(x.arg(0))
        elif k in (z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_IS_INT) or k is None:
            raise ValueError
        else:
            a = [go(c) for c in x.children()]
            if k == z3.Z3_OP_ADD:
                r = z3.Sum(a)
            elif k == z3.Z3_OP_MUL:
                r = z3.Product(a)
            elif k == z3.Z3_OP_SUB:
                r = a[0] - z3.Sum(a[1:])
            elif k == z3.Z3_OP_UMINUS:
                r = -a[0]
            elif k == z3.Z3_OP_LE:
                r = a[0] <= a[1]
            elif k == z3.Z3_OP_GE:
                r = a[0] >= a[1]
            elif k == z3.Z3_OP_LT:
                r = a[0] < a[1]
            elif k == z3.Z3_OP_GT:
                r = a[0] > a[1]
            elif k == z3.Z3_OP_EQ:
                r = a[0] == a[1]
            elif k == z3.Z3_OP_ITE:
                r = z3.If(a[0], a[1], a[2])
            elif k == z3.Z3_OP_DIV:
                r = a[0] / a[1]
            elif not x.num_args():
                r = x
            elif all(c.sort() == o.sort() for c, o in zip(a, x.children())):
                r = x.decl()(*a)
            else:
                raise ValueError
        memo[i] = (x, r)
        return r
    try:
        return [go(c) for c in cons]
    except (ValueError, z3.Z3Exception):
        return None


def has_int(cons):
    seen = set()
    st = list(cons)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(x) or z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL):
            return True
        st.extend(x.children())
    return False


def run_cvc5(cons, ms):
    """only the verdict unsat is taken from cvc5 (sat needs a z3 model)"""
    import subprocess
    s = z3.Solver()
    s.add(cons)
    txt = s.to_smt2()
    logic = 'ALL'
    txt = '(set-logic %s)\n' % logic + txt
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(ms), '-'], input=txt, capture_output=True,
                           text=True, timeout=ms / 1000.0 + 5)
    except subprocess.TimeoutExpired:
        return 'unknown', None
    out = p.stdout
    if '(error' in out or '(error' in p.stderr:
        return 'unknown', None
    if out.strip().startswith('unsat'):
        return 'unsat', None
    return 'unknown', None
