"""Discharging: translation to SMT (z3, optionally cross-checked by cvc5), an equational prover for terms with binders, and
concrete refutation of obligations that fail."""
import math
import random
import itertools
import time
from fractions import Fraction
import z3
from . import terms as T
from . import core as C

TRUE, FALSE = T.TRUE, T.FALSE
STAT = {'z3': 0, 'z3_time': 0.0, 'cvc5': 0, 'cvc5_time': 0.0, 'nf': 0, 'eq': 0, 'cvc5_disagree': 0}
CVC5 = False
UNIT = ('Phi', 'GammaCDF', 'TCDF', 'Beta', 'unif')
NNEG = ('phi', 'gammafn', 'BetaFn', 'exp')


class Tr:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.fns = {}
        self.mono = {}

    def name(self, t, srt):
        n = 't%d' % t.id
        return z3.Int(n) if srt == 'I' else z3.Bool(n) if srt == 'B' else z3.Real(n)

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def real(self, t):
        x = self.tr(t)
        return z3.ToReal(x) if z3.is_int(x) else x

    def _tr(self, t):
        op = t.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'var':
            x = z3.Int(t.attr) if t.sort == 'I' else z3.Bool(t.attr) if t.sort == 'B' else z3.Real(t.attr) if t.sort == 'R' else z3.Const(t.attr, z3.DeclareSort('U'))
            if t.sort == 'I' and t.attr.startswith('N'):
                self.side.append(x >= 1)
            elif t.sort == 'I' and t.attr.startswith(C.NONNEG):
                self.side.append(x >= 0)
            return x
        if op == 'poly':
            s = []
            allint = t.sort == 'I'
            for m, c in t.attr:
                f = []
                for a, e in m:
                    if e > 0:
                        x = self.tr(a) if allint else self.real(a)
                        f += [x] * e
                    else:
                        f += [self.inv(a)] * (-e)
                k = z3.IntVal(int(c)) if allint else z3.RealVal(str(c))
                p = k
                if f:
                    p = f[0]
                    for y in f[1:]:
                        p = p * y
                    if c != 1:
                        p = k * p
                s.append(p)
            if not s:
                return z3.IntVal(0)
            return z3.Sum(s) if len(s) > 1 else s[0]
        if op == 'uf':
            args = [self.tr(a) for a in t.args]
            rs = z3.IntSort() if t.sort == 'I' else z3.RealSort() if t.sort == 'R' else z3.BoolSort() if t.sort == 'B' else z3.DeclareSort('U')
            key = (t.attr,) + tuple(str(a.sort()) for a in args) + (str(rs),)
            if args:
                f = self.fns.get(key)
                if f is None:
                    f = self.fns[key] = z3.Function('%s' % '_'.join(key), *([a.sort() for a in args] + [rs]))
                x = f(*args)
            else:
                x = z3.Const(t.attr + '_c', rs)
            self.axioms(t, x)
            return x
        if op == 'abs':
            x = self.tr(t.args[0])
            return z3.If(x >= 0, x, -x)
        if op == 'ind':
            return z3.If(self.tr(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'ite':
            a, b = self.tr(t.args[1]), self.tr(t.args[2])
            if t.sort == 'R':
                a = z3.ToReal(a) if z3.is_int(a) else a
                b = z3.ToReal(b) if z3.is_int(b) else b
            return z3.If(self.tr(t.args[0]), a, b)
        if op == 'not':
            return z3.Not(self.tr(t.args[0]))
        if op == 'and':
            return z3.And([self.tr(a) for a in t.args])
        if op == 'or':
            return z3.Or([self.tr(a) for a in t.args])
        if op == 'iff':
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == 'equ':
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == 'lt0':
            return self.tr(t.args[0]) > 0
        if op == 'le0':
            return self.tr(t.args[0]) >= 0
        if op == 'eq0':
            return self.tr(t.args[0]) == 0
        if op == 'bind':
            x = self.name(t, t.sort)
            self.bindfacts(t, x)
            return x
        raise AssertionError(op)

    def inv(self, a):
        k = ('inv', a)
        if k not in self.memo:
            x = z3.Real('inv_t%d' % a.id)
            y = self.real(a)
            self.side.append(z3.Implies(y != 0, x * y == 1))
            self.side.append(z3.Implies(y > 0, x > 0))
            self.memo[k] = x
        return self.memo[k]

    def axioms(self, t, x):
        n = t.attr
        if n in UNIT:
            self.side += [x >= 0, x <= 1]
            if n in ('Phi', 'GammaCDF'):          # strictly inside the unit interval, increasing in the argument
                self.side.append(x < 1)
                if n == 'Phi':
                    self.side.append(x > 0)
                for t2, x2 in self.mono.get((n, t.args[:-1]), ()):
                    for a, b, xa, xb in ((t, t2, x, x2), (t2, t, x2, x)):
                        self.side.append(z3.Implies(self.tr(T.le(a.args[-1], b.args[-1])), xa <= xb))
                self.mono.setdefault((n, t.args[:-1]), []).append((t, x))
            elif n == 'TCDF':                     # symmetric about zero
                z = self.real(t.args[-1])
                self.side += [z3.Implies(z <= 0, x <= z3.RealVal('1/2')), z3.Implies(z >= 0, x >= z3.RealVal('1/2'))]
        elif n in NNEG:
            self.side.append(x >= 0)
        elif n == 'sqrt':
            y = self.real(t.args[0])
            self.side.append(z3.Implies(y >= 0, z3.And(x >= 0, x * x == y)))
            self.side.append(z3.Implies(y > 0, x > 0))
        elif n == 'idiv':
            a, b = self.tr(t.args[0]), self.tr(t.args[1])
            if z3.is_int(a) and z3.is_int(b):
                self.side.append(z3.Implies(b > 0, z3.And(x * b <= a, a < x * b + b)))
                self.side.append(z3.Implies(z3.And(b > 0, a >= 0), z3.And(x >= 0, x <= a)))
        elif n == 'trunc':
            y = self.real(t.args[0])
            self.side.append(z3.Implies(y >= 0, z3.And(z3.ToReal(x) <= y, y < z3.ToReal(x) + 1)))
        elif n.startswith(('draw', 'urand', 'argsort')):
            self.side.append(x >= 0)
        for ax in UFAX.get(n.split('~')[0], ()):
            self.side.append(ax(self, t, x))

    def bindfacts(self, t, x):
        kind = t.attr[0]
        if kind == 'sum':
            n = len(t.attr[1])
            body = t.args[n]
            if nonneg_body(body):
                self.side.append(x >= 0)
                ub = unit_body(body)
                if ub:
                    p = self.tr(C.prod(t.args[:n])) if not any(e.fv & set(t.attr[1]) for e in t.args[:n]) else None
                    if p is not None:
                        self.side.append(x <= p)


UFAX = {}


def nonneg_atom(a):
    if C.nonneg_atom(a) or a.op == 'abs':
        return True
    if a.op == 'uf' and (a.attr in UNIT or a.attr in NNEG or a.attr == 'sqrt'):
        return True
    if a.op == 'poly':
        return nonneg_body(a)
    if a.op == 'bind' and a.attr[0] == 'sum':
        return nonneg_body(a.args[len(a.attr[1])])
    return False


def nonneg_body(b):
    return all(c >= 0 and all(e % 2 == 0 or nonneg_atom(a) for a, e in m) for m, c in T.as_poly(b).items())


def unit_body(b):
    p = T.as_poly(b)
    if len(p) != 1:
        return False
    (m, c), = p.items()
    return 0 <= c <= 1 and all(a.op == 'ind' and e == 1 for a, e in m)


class Solver:
    def __init__(self):
        self.cache = {}

    def check(self, formulas, timeout=1500):
        """is the conjunction unsatisfiable?  'unsat' / 'sat' / 'unknown'"""
        key = frozenset(formulas)
        r = self.cache.get(key)
        if r is not None and not (r == 'unknown' and timeout > 1500):
            return r
        tr = Tr()
        fs = [tr.tr(f) for f in formulas]
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('random_seed', 7)
        s.add(tr.side)
        s.add(fs)
        t0 = time.time()
        res = str(s.check())
        STAT['z3'] += 1
        STAT['z3_time'] += time.time() - t0
        if res == 'unsat' and CVC5:
            self.cross(s)
        self.cache[key] = res
        return res

    def cross(self, s):
        import cvc5
        t0 = time.time()
        try:
            tm = cvc5.TermManager()
            sl = cvc5.Solver(tm)
            sl.setOption('tlimit-per', '3000')
            p = cvc5.InputParser(sl)
            txt = '(set-logic ALL)\n' + s.to_smt2().replace('(check-sat)', '')
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                c.invoke(sl, sm)
            r = sl.checkSat()
            STAT['cvc5'] += 1
            if r.isSat():
                STAT['cvc5_disagree'] += 1
        except Exception:
            pass
        STAT['cvc5_time'] += time.time() - t0

    def relevant(self, t, H):
        """drop hypotheses that share no free variable or function with the goal (sound for proving)"""
        return list(H)

    def decide(self, t, H=()):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        hs = set(H)
        if t in hs:
            return True
        if T.not_(t) in hs:
            return False
        key = (t, frozenset(hs))
        if key in self.cache:
            r = self.cache[key]
            return None if r == 'none' else r
        r = None
        if self.check(list(hs) + [T.not_(t)], 700) == 'unsat':
            r = True
        elif self.check(list(hs) + [t], 700) == 'unsat':
            r = False
        self.cache[key] = 'none' if r is None else r
        return r

    # ------------------------------------------------------------ proving
    def prove(self, goal, H=(), depth=0):
        if self.prove1(goal, H, depth):
            return True
        if depth:
            return False
        # facts of H rewritten everywhere, under binders too
        m = {}
        for h in H:
            for l in (h.args if h.op == 'and' else (h,)):
                if l.op == 'not':
                    m[l.args[0]] = FALSE
                elif l.op in ('bind', 'uf', 'var', 'eq0', 'lt0', 'le0'):
                    m[l] = TRUE
        g = T.replace(goal, m) if m else goal
        return g is not goal and self.prove1(g, H, depth)

    def prove1(self, goal, H=(), depth=0):
        """True if goal is proved from H"""
        self.deadline = getattr(self, 'deadline', None)
        if goal is TRUE:
            STAT['nf'] += 1
            return True
        if goal in H:
            return True
        if FALSE in H:
            return True
        if goal.op == 'and':
            return all(self.prove(g, H, depth) for g in goal.args)
        if goal.op == 'eq0':
            return self.prove_zero(goal.args[0], list(H), depth)
        if goal.op == 'iff':
            a, b = goal.args
            if self.quick(goal, H):
                return True
            if self.prove_iff(a, b, H, depth):
                return True
        if goal.op == 'or' and depth < 6:
            if self.quick(goal, H):
                return True
            # assume all other disjuncts false
            for k, g in enumerate(goal.args):
                if g.op in ('eq0', 'iff', 'bind') or (g.op == 'not'):
                    H2 = list(H) + [T.not_(x) for j, x in enumerate(goal.args) if j != k]
                    if self.prove(g, H2, depth + 1):
                        return True
            return False
        if goal.op == 'not' and goal.args[0].op == 'bind' and goal.args[0].attr[0] == 'exists':
            vs, es, bs, _ = T.open_bind(goal.args[0])
            H2 = list(H) + bounds(vs, es)
            return self.prove(T.not_(bs[0]), H2, depth + 1)
        if goal.op == 'bind' and goal.attr[0] == 'forall':
            vs, es, bs, _ = T.open_bind(goal)
            return self.prove(bs[0], list(H) + bounds(vs, es), depth + 1)
        if self.quick(goal, H):
            return True
        if goal.op in ('lt0', 'le0'):
            return self.prove_sign(goal, list(H), depth)
        c = pick_cond(goal)
        if c is not None and depth < 14:
            return self.prove(assume(goal, c, True), add_h(H, c), depth + 1) and \
                self.prove(assume(goal, c, False), add_h(H, T.not_(c)), depth + 1)
        return self.quick(goal, H, 4000)

    def prove_sign(self, goal, H, depth):
        c = pick_cond(goal)
        if c is not None and depth < 14:
            return self.prove(assume(goal, c, True), add_h(H, c), depth + 1) and \
                self.prove(assume(goal, c, False), add_h(H, T.not_(c)), depth + 1)
        p = goal.args[0]
        # clear positive denominators
        den = {}
        for m, c in T.as_poly(p).items():
            for a, e in m:
                if e < 0:
                    den[a] = max(den.get(a, 0), -e)
        for a, e in den.items():
            if self.decide(T.lt(T.const(0), a), H) is True:
                p = T.mul(p, T.powi(a, e))
        if p is not goal.args[0] and depth < 14:
            return self.prove((T.lt0 if goal.op == 'lt0' else T.le0)(p), H, depth + 1)
        # a sum with non-negative summands
        g = gather(p)
        if g is not None:
            vs, es, body, rest = g
            if goal.op == 'le0' and rest is not None:
                # a multiple of the number of summands, spread over them
                n = T.const(1)
                for e in es:
                    n = T.mul(n, e)
                nm = list(T.as_poly(n).items())
                c = T.as_poly(rest).get(nm[0][0]) if len(nm) == 1 else None
                if c is not None:
                    c = c / nm[0][1]
                    r2 = T.sub(rest, T.scale(n, c))
                    if T.is_const(r2) and T.cval(r2) >= 0 and \
                            self.prove(T.le0(T.add(body, T.const(c))), H + bounds(vs, es), depth + 1):
                        return True
            if goal.op == 'le0':
                if rest is None or self.prove(T.le0(rest), H, depth + 1):
                    return self.prove(T.le0(body), H + bounds(vs, es), depth + 1)
            elif rest is None and self.prove(T.le0(body), H + bounds(vs, es), depth + 1):
                # strictly positive: one summand is positive (witness among the indices the hypotheses speak of)
                for w in witnesses(vs, es, H):
                    if self.prove(T.lt0(T.subst(body, dict(zip(vs, w)))), H, depth + 1):
                        return True
        return self.quick(goal, H, 4000)

    def quick(self, goal, H, timeout=1500):
        return self.check(list(H) + [T.not_(goal)], timeout) == 'unsat'

    def prove_iff(self, a, b, H, depth):
        if depth > 14:
            return False
        for x, y in ((a, b), (b, a)):
            if x is TRUE or x is FALSE:
                return self.prove(y if x is TRUE else T.not_(y), H, depth)
        # existentials with the same binders: bodies equivalent
        na, a2 = strip(a)
        nb, b2 = strip(b)
        if a2.op == 'bind' and b2.op == 'bind' and a2.attr[0] == b2.attr[0] == 'exists' and na == nb:
            m = match_binders(a2, b2)
            if m is not None:
                vs, es, ba, bb = m
                if self.prove(T.iff(ba[0], bb[0]), list(H) + bounds(vs, es), depth + 1):
                    return True
        if a2.op == b2.op == 'eq0' and na == nb and depth < 8 and ('bind' in (x.op for x in atoms_of(a2))):
            # the same number (up to sign) is compared with zero
            for d in (T.sub(a2.args[0], b2.args[0]), T.add(a2.args[0], b2.args[0])):
                if self.prove_zero(d, list(H), depth + 1):
                    return True
        return self.prove(T.or_(T.not_(a), b), H, depth + 1) and self.prove(T.or_(T.not_(b), a), H, depth + 1)

    def prove_zero(self, d, H, depth=0):
        STAT['eq'] += 1
        if T.is_const(d):
            return T.cval(d) == 0 or self.check(H, 1500) == 'unsat'
        if depth > 22:
            return False
        d1 = self.unify_tests(d, H, depth)
        if d1 is not None:
            return self.prove_zero(d1, H, depth + 1)
        c = pick_cond_num(d)
        if c is not None:
            for v in (True, False):
                l = c if v else T.not_(c)
                H2 = add_h(H, l)
                d2 = assume(d, c, v)
                if T.is_const(d2) and T.cval(d2) == 0:
                    continue
                if self.check(H2, 700) == 'unsat':
                    continue
                if not self.prove_zero(d2, H2, depth + 1):
                    return False
            return True
        # combine sums over equal index ranges
        d2 = self.combine(d, H, depth)
        if d2 is not None:
            if T.is_const(d2) and T.cval(d2) == 0:
                return True
            if d2 is not d:
                return self.prove_zero(d2, H, depth + 1)
        # replace provably equal opaque atoms
        d3 = self.unify_atoms(d, H, depth)
        if d3 is not None:
            return self.prove_zero(d3, H, depth + 1)
        # clear denominators
        d4 = self.clear_denoms(d, H)
        if d4 is not None and d4 is not d:
            if T.is_const(d4) and T.cval(d4) == 0:
                return True
            d5 = self.combine(d4, H, depth)
            if d5 is not None and T.is_const(d5) and T.cval(d5) == 0:
                return True
            if self.quick(T.eq(d4, T.const(0)), H, 2500):
                return True
        return self.quick(T.eq(d, T.const(0)), H, 4000)

    def clear_denoms(self, d, H):
        den = {}
        for m, c in T.as_poly(d).items():
            for a, e in m:
                if e < 0:
                    den[a] = max(den.get(a, 0), -e)
        if not den:
            return None
        r = d
        for a, e in den.items():
            if not (self.decide(T.ne(a, T.const(0)), H) is True):
                return None
            out = T.const(0)
            for m, c in T.as_poly(r).items():
                f = T.const(c)
                k = e
                for b, x in m:
                    if b is a:
                        k += x
                    else:
                        f = T.mul(f, T.powi_atom(b, x))
                out = T.add(out, T.mul(f, T.powi(a, k)))
            r = out
        return r

    def combine(self, d, H, depth):
        groups = {}
        other = T.const(0)
        n = 0
        for m, c in T.as_poly(d).items():
            sums = [(a, e) for a, e in m if a.op == 'bind' and a.attr[0] == 'sum' and e == 1]
            if len(sums) != 1:
                other = T.add(other, T._poly({m: c}))
                continue
            a = sums[0][0]
            k = len(a.attr[1])
            rest = tuple((x, e) for x, e in m if x is not a)
            key = (rest, ext_key(a))
            groups.setdefault(key, []).append((a, c))
            n += 1
        changed = False
        res = other
        for (rest, ek), items in groups.items():
            f = T.const(1)
            for x, e in rest:
                f = T.mul(f, T.powi_atom(x, e))
            if len(items) == 1:
                a, c = items[0]
                vs, es, bs, _ = T.open_bind(a)
                if self.prove_zero_q(bs[0], H + bounds(vs, es), depth + 1):
                    changed = True
                    continue
                res = T.add(res, T.scale(T.mul(f, a), c))
                continue
            vs, es, bs, _ = T.open_bind(items[0][0])
            body = T.scale(bs[0], items[0][1])
            for a, c in items[1:]:
                kk = len(a.attr[1])
                perm = align_perm(es, vs, a)
                if perm is None:
                    return None
                body = T.add(body, T.scale(T.subst(a.args[kk], dict(zip(a.attr[1], perm))), c))
            if self.prove_zero(body, H + bounds(vs, es), depth + 1):
                changed = True
                continue
            nb = T.mul(f, T.sum_(list(zip(vs, es)), body))
            res = T.add(res, nb)
        return res if changed else None

    def prove_zero_q(self, d, H, depth):
        """cheap attempt only"""
        if T.is_const(d):
            return T.cval(d) == 0
        for m, c in T.as_poly(d).items():
            if len(T.as_poly(d)) == 1 and any(a.op == 'ind' for a, e in m):
                for a, e in m:
                    if a.op == 'ind' and self.check(H + [a.args[0]], 500) == 'unsat':
                        return True
        return False

    def unify_tests(self, d, H, depth):
        """two choices made by comparing provably equal sums with zero: the same sum"""
        nums = []
        for m, c in T.as_poly(d).items():
            for a, e in m:
                if a.op == 'ite' and a.args[0].op == 'eq0':
                    p = T.as_poly(a.args[0].args[0])
                    if len(p) == 1:
                        (m2, c2), = p.items()
                        if len(m2) == 1 and m2[0][0].op == 'bind' and m2[0][0].attr[0] == 'sum' and m2[0][0] not in nums:
                            nums.append(m2[0][0])
        for i, a in enumerate(nums):
            for b in nums[i + 1:]:
                key = ('un', a, b, frozenset(H))
                if key not in self.cache:
                    self.cache[key] = False
                    self.cache[key] = self.prove_zero(T.sub(a, b), H, depth + 1)
                if self.cache[key]:
                    return T.replace(d, {b: a})
        return None

    def unify_atoms(self, d, H, depth):
        atoms = []
        seen = set()
        for m, c in T.as_poly(d).items():
            for a, e in m:
                if a not in seen:
                    seen.add(a)
                    if a.op in ('bind', 'uf', 'abs', 'poly'):
                        atoms.append(a)
        for i, a in enumerate(atoms):
            for b in atoms[i + 1:]:
                if a.op != b.op:
                    continue
                key = ('un', a, b, frozenset(H))
                if key in self.cache:
                    if self.cache[key]:
                        return replace_atom(d, b, a)
                    continue
                self.cache[key] = False
                if self.atoms_equal(a, b, H, depth):
                    self.cache[key] = True
                    return replace_atom(d, b, a)
        return None

    def atoms_equal(self, a, b, H, depth):
        if depth > 18:
            return False
        if a.op == 'uf':
            if a.attr != b.attr or len(a.args) != len(b.args):
                return False
            return all(x is y or (x.sort in 'IR' and y.sort in 'IR' and self.prove_zero(T.sub(x, y), H, depth + 2))
                       or (x.sort == 'B' and y.sort == 'B' and self.prove(T.iff(x, y), H, depth + 2)) for x, y in zip(a.args, b.args))
        if a.op == 'abs':
            x, y = a.args[0], b.args[0]
            return self.prove_zero(T.sub(x, y), H, depth + 2) or self.prove_zero(T.add(x, y), H, depth + 2)
        if a.op == 'poly':
            return self.prove_zero(T.sub(a, b), H, depth + 2)
        if a.op == 'bind':
            if a.attr[0] != b.attr[0]:
                return False
            m = match_binders(a, b)
            if m is None:
                return False
            vs, es, ba, bb = m
            H2 = list(H) + bounds(vs, es)
            n = len(vs)
            for x, y in zip(a.args[n + a.attr[2]:], b.args[n + b.attr[2]:]):
                if x is not y and not self.prove(T.eq(x, y), H, depth + 2):
                    return False
            g = TRUE
            for x, y in zip(ba, bb):
                if x is y:
                    if x.sort == 'B':
                        g = T.and_(g, x)
                    continue
                if x.sort == 'B':
                    if not self.prove(T.iff(x, y), H2, depth + 2):
                        return False
                    g = T.and_(g, x)
                elif not self.prove_zero(T.sub(x, y), H2 + ([g] if g is not TRUE else []), depth + 2):
                    return False
            return True
        return False


def witnesses(vs, es, H):
    free = sorted({v for h in H for v in h.fv}, key=lambda v: v.id)
    cand = [[v for v in free if v.sort == 'I' and v not in vs and T.lt(v, e) in H and T.le(T.const(0), v) in H] for e in es]
    return itertools.islice(itertools.product(*cand), 64)


def strip(t):
    if t.op == 'not':
        return True, t.args[0]
    return False, t


def add_h(H, c):
    H = list(H)
    for l in (c.args if c.op == 'and' else (c,)):
        if l not in H:
            H.append(l)
    return H


def bounds(vs, es):
    return [T.le(T.const(0), v) for v in vs] + [T.lt(v, e) for v, e in zip(vs, es)]


def ext_key(a):
    return tuple(sorted(e.id for e in a.args[:len(a.attr[1])]))


def align_perm(es, vs, a):
    """variables vs (with extents es) in the order of a's binders"""
    k = len(a.attr[1])
    ex = a.args[:k]
    if [e.id for e in ex] == [e.id for e in es]:
        return vs
    used, out = set(), []
    for e in ex:
        for j, x in enumerate(es):
            if x is e and j not in used:
                used.add(j)
                out.append(vs[j])
                break
        else:
            return None
    return out


def match_binders(a, b):
    if len(a.attr[1]) != len(b.attr[1]) or a.attr[2] != b.attr[2] or len(a.args) != len(b.args):
        return None
    vs, es, ba, xa = T.open_bind(a)
    perm = align_perm(es, vs, b)
    if perm is None:
        return None
    n = len(vs)
    bb = [T.subst(x, dict(zip(b.attr[1], perm))) for x in b.args[n:n + b.attr[2]]]
    return vs, es, ba, bb


def gather(p):
    """p = sum over one binder of body + rest"""
    pp = T.as_poly(p)
    sums, rest = [], T.const(0)
    for m, c in pp.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'bind' and m[0][0].attr[0] == 'sum':
            sums.append((m[0][0], c))
        else:
            rest = T.add(rest, T._poly({m: c}))
    if not sums:
        return None
    vs, es, bs, _ = T.open_bind(sums[0][0])
    body = T.scale(bs[0], sums[0][1])
    for a, c in sums[1:]:
        perm = align_perm(es, vs, a)
        if perm is None:
            return None
        k = len(a.attr[1])
        body = T.add(body, T.scale(T.subst(a.args[k], dict(zip(a.attr[1], perm))), c))
    return vs, es, body, (None if T.is_const(rest) and T.cval(rest) == 0 else rest)


def replace_atom(d, b, a):
    out = T.const(0)
    for m, c in T.as_poly(d).items():
        f = T.const(c)
        for x, e in m:
            f = T.mul(f, T.powi(a if x is b else x, e))
        out = T.add(out, f)
    return out


# ---------------------------------------------------------------- case splitting
def literals(c):
    if c.op in ('and', 'or', 'not', 'iff'):
        for x in c.args:
            l = literals(x)
            if l is not None:
                return l
        return None
    return c


def pick_cond_num(d):
    """a condition of an indicator or conditional occurring in a numeric term outside binders"""
    for t in T.subterms(d):
        if t.op in ('ind', 'ite'):
            c = t.args[0]
            l = literals(c)
            if l is not None and l not in (TRUE, FALSE):
                return l
    return None


def atoms_of(eq):
    for m, _ in T.as_poly(eq.args[0]).items():
        for a, _ in m:
            yield a


def pick_cond(g):
    for t in T.subterms(g):
        if t.op in ('ind', 'ite'):
            return literals(t.args[0])
    for t in T.subterms(g):
        if t.op in ('and', 'or', 'iff') and t is not g:
            l = literals(t)
            if l is not None and l is not g:
                return l
    if g.op in ('iff',):
        return literals(g)
    return None


def assume(t, c, val):
    """replace the literal c by a truth value (outside binders)"""
    m = {c: TRUE if val else FALSE}
    n = T.not_(c)
    m[n] = FALSE if val else TRUE
    memo = {}

    def rec(x):
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        if x.op in ('var', 'true', 'false'):
            r = x
        elif x.op == 'poly':
            r = T.const(0)
            ch = False
            parts = []
            for mono, k in x.attr:
                f = T.const(k)
                for a, e in mono:
                    a2 = rec(a)
                    ch = ch or a2 is not a
                    f = T.mul(f, T.powi(a2, e))
                parts.append(f)
            r = T.add(*parts) if ch else x
        elif x.op == 'bind':
            n0 = len(x.attr[1]) + x.attr[2]
            a2 = [rec(a) for a in x.args[n0:]]
            if all(p is q for p, q in zip(a2, x.args[n0:])):
                # the literal may also occur below the binder if it is closed
                if not (c.fv & frozenset(x.attr[1])) and x.attr[0] in ('sum', 'exists', 'bmax', 'bmin'):
                    b2 = [rec(a) for a in x.args[:n0]]
                    if all(p is q for p, q in zip(b2, x.args[:n0])):
                        r = x
                    else:
                        k = len(x.attr[1])
                        fr = [T.fresh('b') for _ in range(k)]
                        ren = dict(zip(x.attr[1], fr))
                        b3 = [T.subst(b, ren) for b in b2]
                        r = T.bind(x.attr[0], list(zip(fr, b3[:k])), b3[k:], x.args[n0:])
                else:
                    r = x
            else:
                k = len(x.attr[1])
                fr = [T.fresh('b') for _ in range(k)]
                ren = dict(zip(x.attr[1], fr))
                b3 = [T.subst(b, ren) for b in x.args[:n0]]
                r = T.bind(x.attr[0], list(zip(fr, b3[:k])), b3[k:], a2)
        else:
            a2 = [rec(a) for a in x.args]
            r = x if all(p is q for p, q in zip(a2, x.args)) else T.rebuild(x, a2)
        memo[x] = r
        return r
    r = rec(t)
    if val and c.op == 'eq0':
        # the equation fixes an index
        p = T.as_poly(c.args[0])
        for mono, k in p.items():
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'var' and mono[0][0].sort == 'I' and not mono[0][0].attr.startswith('N'):
                x = mono[0][0]
                rest = T.scale(T.sub(c.args[0], T.scale(x, k)), -1 / k)
                if x not in rest.fv and all(q.denominator == 1 for q in T.as_poly(rest).values()):
                    return T.subst(r, {x: rest})
    return r


# ---------------------------------------------------------------- concrete refutation
def _mathfuncs():
    from scipy import stats, special
    return {
        'Phi': lambda x: float(stats.norm.cdf(x)), 'phi': lambda x: float(stats.norm.pdf(x)),
        'GammaCDF': lambda s, x: float(special.gammainc(s, x)) if x > 0 and s > 0 else 0.0 if s > 0 else float('nan'),
        'TCDF': lambda d, x: float(stats.t.cdf(x, d)), 'exp': lambda x: math.exp(min(x, 700)), 'log': lambda x: math.log(x) if x > 0 else float('nan'),
        'sqrt': lambda x: math.sqrt(x) if x >= 0 else float('nan'), 'trunc': lambda x: int(x),
        'idiv': lambda a, b: a // b if b else 0, 'pow': lambda a, b: float(a) ** b if a >= 0 or b == int(b) else float('nan'),
        'gammaln': lambda x: float(special.gammaln(x)), 'div0': lambda: float('nan'), 'pi': lambda: math.pi,
        'gammaincinv': lambda s, q: float(special.gammaincinv(s, q)),
        'npfloor': lambda x: math.floor(x), 'npceil': lambda x: math.ceil(x), 'nprint': lambda x: round(x), 'nptrunc': lambda x: math.trunc(x),
        'nearest': lambda x, n: float(round(float(x), int(n))), 'stepup': lambda x: math.nextafter(float(x), math.inf),
        'stepdown': lambda x: math.nextafter(float(x), -math.inf),
        'Phiinv': lambda q: float(stats.norm.ppf(q)),
    }


MF = None


def _quant(rows, extra):
    v = sorted(float(x[1]) for x in rows if x[0])
    if not v:
        return float('nan')
    q = extra[0]
    p = q * (len(v) - 1)
    k = int(math.floor(p))
    return v[k] + (v[min(k + 1, len(v) - 1)] - v[k]) * (p - k)


def _argsort(rows, extra):
    # rows: value, NaN flag, position: NaN sorts last, ties keep their order
    o = sorted(range(len(rows)), key=lambda k: (bool(rows[k][1]), rows[k][0] if not rows[k][1] else 0, rows[k][2]))
    k = int(extra[0])
    return rows[o[k]][2] if 0 <= k < len(o) else 0


def _kth(rows, extra):
    v = sorted(x[1] for x in rows if x[0])
    k = int(extra[0])
    return v[k] if 0 <= k < len(v) else float('nan')


BINDERS = {'quantile': _quant, 'argsort': _argsort, 'kth': _kth}


class Interp:
    """a random concrete interpretation of the symbols"""

    def __init__(self, seed, ranges=None):
        self.rng = random.Random(seed)
        self.tables = {}
        self.ranges = ranges or {}
        self.env = {}
        self.seed = seed
        self.mode = self.rng.randrange(4)
        self.near = self.rng.random() < 0.2          # some values a hair apart
        self.seen = []

    def value(self, name, sort):
        v = self.draw(name, sort)
        if sort == 'R' and not isinstance(v, bool):
            if self.near and self.seen and self.rng.random() < 0.3:
                u = float(self.rng.choice(self.seen))
                w = self.rng.choice((u * (1 - 1e-7), u * (1 - 1e-11), math.nextafter(u, math.inf), math.nextafter(u, -math.inf)))
                r = self.ranges.get(name) or self.ranges.get(name.split('~')[0])
                if r is None or 0 < w < 1:
                    v = w
            self.seen.append(v)
        return v

    def draw(self, name, sort):
        b = name.split('~')[0]
        r = self.ranges.get(name) or self.ranges.get(b)
        if r is not None:
            return r(self.rng)
        if sort == 'B':
            return self.rng.random() < (0.0, 0.15, 0.3, 0.5)[self.mode]
        if sort == 'I':
            return self.rng.randrange(0, 4)
        if self.rng.random() < 0.5:
            return self.rng.randrange(-2, 4) * 0.5
        return round(self.rng.uniform(-3, 5), 3)

    def table(self, name, sort):
        d = self.tables.setdefault((name, sort), {})

        def f(*a):
            k = tuple(round(float(x), 9) if not isinstance(x, bool) else x for x in a)
            if k not in d:
                d[k] = self.value(name, sort)
            return d[k]
        return f


def eval_terms(ts, itp, varvals, exact=False):
    global MF
    if MF is None:
        MF = _mathfuncs()

    class F(dict):
        def __contains__(self, k):
            return True

        def __missing__(self, k):
            raise KeyError(k)
    funcs = {}
    for t in ts:
        for x in T.subterms(t, into_binders=True):
            if x.op == 'uf' and x.attr not in funcs:
                funcs[x.attr] = MF.get(x.attr) or itp.table(x.attr, x.sort)
            if x.op == 'var' and x.attr not in varvals and not x.attr.startswith('%'):
                varvals[x.attr] = itp.value(x.attr, x.sort) if not x.attr.startswith('N') else itp.rng.randrange(1, 4)
    return [T.evaluate(t, varvals, funcs, BINDERS, exact) for t in ts]


def bad(x):
    return isinstance(x, float) and (x != x or abs(x) == float('inf'))


def confirm(H, g, a, b, itp, vv):
    """the candidate again in exact arithmetic: rounding must not make a counter-model"""
    try:
        x = eval_terms(list(H) + [g, a, b], itp, vv, True)
    except (T.EvalError, OverflowError, ZeroDivisionError, ValueError, TypeError, RecursionError):
        return False
    if not all(bool(v) for v in x[:-2]):
        return False
    p, q = x[-2:]
    if a.sort == 'B':
        return bool(p) != bool(q)
    return abs(p - q) > (1 + abs(p) + abs(q)) / 10 ** 6


def refute(goal_pairs, H, ranges=None, tries=400, fixed=None, tlimit=6.0, seed=1, _guided=False):
    """look for a concrete interpretation satisfying H under which a pair (impl, spec) differs, or a boolean goal is false.
    goal_pairs: list of (guard, impl, spec) numeric/boolean terms.  returns a dict or None"""
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > tlimit:
            return None
        itp = Interp(seed * 7919 + k, ranges)
        vv = dict(fixed or {})
        try:
            hv = eval_terms(list(H), itp, vv)
        except (T.EvalError, OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
        if not all(x is True or x is not False and bool(x) and not bad(x) for x in hv):
            continue
        for g, a, b in goal_pairs:
            try:
                x = eval_terms([g, a, b], itp, vv)
            except (T.EvalError, OverflowError, ZeroDivisionError, ValueError, TypeError):
                continue
            if not x[0]:
                continue
            if a.sort == 'B':
                if bool(x[1]) != bool(x[2]) and confirm(H, g, a, b, itp, vv):
                    return {'vars': dict(vv), 'tables': itp.tables, 'impl': x[1], 'spec': x[2]}
                continue
            if bad(x[1]) or bad(x[2]) or bad(float(x[1])) or bad(float(x[2])):
                continue
            if abs(x[1] - x[2]) > 1e-6 * (1 + abs(x[1]) + abs(x[2])) and confirm(H, g, a, b, itp, vv):
                return {'vars': dict(vv), 'tables': itp.tables, 'impl': float(x[1]), 'spec': float(x[2])}
    return guided(goal_pairs, H, ranges, fixed, seed) if not _guided else None


def guided(goal_pairs, H, ranges, fixed, seed):
    """values of the plain variables from a solver model (found in exact arithmetic, then evaluated and confirmed like a random candidate)"""
    from fractions import Fraction
    ts = list(H) + [x for p in goal_pairs for x in p]
    sub = {x for t in ts for x in T.subterms(t, into_binders=True)}
    if any(x.op == 'bind' for x in sub):
        return None
    vs = [x for x in sub if x.op == 'var' and x.sort in 'IRB' and not x.attr.startswith('%') and x.attr not in (ranges or {}) and x.attr.split('~')[0] not in (ranges or {})]
    if not vs:
        return None
    for g, a, b in goal_pairs:
        ne = T.not_(T.iff(a, b)) if a.sort == 'B' else T.not_(T.eq(a, b))
        tr = Tr()
        s = z3.Solver()
        s.set('timeout', 1500)
        s.set('random_seed', 7)
        try:
            fs = [tr.tr(f) for f in list(H) + [g, ne]]
            xs = {v: tr.tr(v) for v in vs}
        except z3.Z3Exception:
            return None
        s.add(tr.side)
        s.add(fs)
        for v, x in xs.items():
            if v.sort == 'I':
                s.add(x <= 10 ** 6, x >= -10 ** 6)
        for k in range(3):
            STAT['z3'] += 1
            if str(s.check()) != 'sat':
                break
            m = s.model()
            fx = dict(fixed or {})
            for v, x in xs.items():
                y = m.eval(x, model_completion=True)
                if v.sort == 'B':
                    fx[v.attr] = z3.is_true(y)
                elif z3.is_int_value(y):
                    fx[v.attr] = y.as_long()
                elif z3.is_rational_value(y):
                    q = Fraction(y.numerator_as_long(), y.denominator_as_long())
                    fx[v.attr] = float(q) if Fraction(float(q)) == q else q
            r = refute([(g, a, b)], H, ranges, 20, fx, 1.0, seed + k, True)
            if r is not None:
                return r
            s.add(z3.Or([x != m.eval(x, model_completion=True) for x in xs.values()]))
    return None


SOLVER = Solver()
C.SOLVER = SOLVER
