"""Hash-consed term language of the verifier.

Numeric terms are kept in a canonical rational-polynomial form (sum of monomials over atoms, integer
exponents, negative exponents for division), so that most algebraically equal expressions are identical
objects.  Binders (sum, max, quantile, ...) carry canonically renamed bound variables.  Machine floats are
treated as real numbers (stated as an assumption in every evidence file).
"""
from fractions import Fraction
import itertools
import math

_TABLE = {}


class Term:
    __slots__ = ('op', 'args', 'attr', 'sort', 'id', 'fv', 'depth', '_key')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError('truth value of a Term')


_ids = itertools.count(1)


def _mk(op, args=(), attr=None, sort='R'):
    k = (op, tuple(a.id for a in args), attr, sort)
    t = _TABLE.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.attr, t.sort = op, tuple(args), attr, sort
        t.id = next(_ids)
        if op == 'var':
            t.fv = frozenset([t])
            t.depth = 0
        elif op == 'bind':
            kind, bvs = attr[0], attr[1]
            fv = frozenset().union(*[a.fv for a in args]) if args else frozenset()
            t.fv = fv - frozenset(bvs)
            t.depth = 1 + max([a.depth for a in args] or [0])
        elif op == 'poly':
            fv = frozenset()
            d = 0
            for m, c in attr:
                for a, e in m:
                    fv = fv | a.fv
                    d = max(d, a.depth)
            t.fv, t.depth = fv, d
        else:
            t.fv = frozenset().union(*[a.fv for a in args]) if args else frozenset()
            t.depth = max([a.depth for a in args] or [0])
        t._key = None
        _TABLE[k] = t
    return t


# ---------------------------------------------------------------- constants and variables
def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return _poly({(): Fraction(v)})
    if isinstance(v, float):
        v = Fraction(repr(v))
    return _poly({(): Fraction(v)})


TRUE = _mk('true', sort='B')
FALSE = _mk('false', sort='B')


def var(name, sort='I'):
    return _mk('var', (), name, sort)


_fresh = itertools.count(1)


def fresh(name='v', sort='I'):
    return var('%s!%d' % (name, next(_fresh)), sort)


def uf(name, args, sort='R'):
    if name == 'idiv' and is_const(args[1]):
        if cval(args[1]) == 1:
            return args[0]
        if is_const(args[0]) and cval(args[1]):
            return const(cval(args[0]) // cval(args[1]))
    return _mk('uf', tuple(args), name, sort)


# ---------------------------------------------------------------- polynomials
def _atom_key(a):
    return a.id


def _poly(d):
    """d: {monomial tuple: coeff}"""
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    sort = 'I'
    for m, c in items:
        if c.denominator != 1 or any(a.sort != 'I' or e < 0 for a, e in m):
            sort = 'R'
            break
    attr = tuple(items)
    k = ('poly', attr)
    return _mk('poly', (), attr, sort)


def as_poly(t):
    if t.op == 'poly':
        return dict(t.attr)
    assert t.sort in 'IR', t
    return {((t, 1),): Fraction(1)}


def is_const(t):
    return t.op == 'poly' and (t.attr == () or (len(t.attr) == 1 and t.attr[0][0] == ()))


def cval(t):
    return Fraction(0) if t.attr == () else t.attr[0][1]


def add(*ts):
    d = {}
    for t in ts:
        for m, c in as_poly(t).items():
            d[m] = d.get(m, 0) + c
    return _poly(d)


def scale(t, c):
    c = Fraction(c)
    return _poly({m: c * v for m, v in as_poly(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    inds = [a for a, e in d.items() if a.op == 'ind' and e > 0]
    if inds:
        for a in inds:
            d[a] = 1
        if len(inds) > 1:
            g = and_(*[a.args[0] for a in inds])
            for a in inds:
                del d[a]
            if g is FALSE:
                return None
            gi = ind(g)
            if is_const(gi):
                if cval(gi) == 0:
                    return None
            else:
                d[gi] = 1
    # exact squares of square roots
    for a in list(d):
        e = d[a]
        if a.op == 'uf' and a.attr == 'sqrt' and abs(e) >= 2:
            return ('needs_expand', d)
        if a.op == 'abs' and abs(e) >= 2:
            return ('needs_expand', d)
    return tuple(sorted([(a, e) for a, e in d.items() if e != 0], key=lambda ae: (ae[0].id, ae[1])))


def mul(*ts):
    r = {(): Fraction(1)}
    for t in ts:
        p = as_poly(t)
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                m = _mono_mul(m1, m2)
                if m is None:
                    continue
                if m and m[0] == 'needs_expand':
                    x = const(1)
                    for a, e in m[1].items():
                        if a.op == 'uf' and a.attr == 'sqrt':
                            x = mul(x, powi(a.args[0], e // 2) if e > 0 else powi(a.args[0], -((-e) // 2)))
                            if e % 2:
                                x = mul(x, _poly({((a, 1 if e > 0 else -1),): Fraction(1)}))
                        elif a.op == 'abs':
                            h = 2 * (abs(e) // 2)
                            x = mul(x, powi(a.args[0], h if e > 0 else -h))
                            if abs(e) % 2:
                                x = mul(x, _poly({((a, 1 if e > 0 else -1),): Fraction(1)}))
                        else:
                            x = mul(x, _poly({((a, e),): Fraction(1)}))
                    for mm, cc in as_poly(x).items():
                        n[mm] = n.get(mm, 0) + c1 * c2 * cc
                else:
                    n[m] = n.get(m, 0) + c1 * c2
        r = {m: c for m, c in n.items() if c != 0}
    return _poly(r)


def powi(t, n):
    if n == 0:
        return const(1)
    if n < 0:
        return powi(inv(t), -n)
    r = const(1)
    for _ in range(n):
        r = mul(r, t)
    return r


def inv(t):
    """1/t, meaningful where t != 0 (callers track definedness)."""
    if is_const(t):
        c = cval(t)
        if c == 0:
            return uf('div0', (), 'R')
        return _poly({(): 1 / c})
    p = as_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        out = {}
        for a, e in m:
            if a.op == 'ind':
                pass
            out[a] = -e
        return _poly({tuple(sorted(out.items(), key=lambda ae: ae[0].id)): 1 / c})
    # compound denominator: make it monic and treat it as an atom with exponent -1
    lead = t.attr[-1][1]
    base = scale(t, 1 / lead)
    return _poly({((base, -1),): 1 / lead})


def div(a, b):
    return mul(a, inv(b))


def pow_(a, b):
    if is_const(b) and cval(b).denominator == 1 and abs(cval(b)) <= 8:
        return powi(a, int(cval(b)))
    if is_const(b) and cval(b) == Fraction(1, 2):
        return sqrt(a)
    return uf('pow', (a, b), 'R')


def sqrt(a):
    if is_const(a):
        c = cval(a)
        if c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    return uf('sqrt', (a,), 'R')


def abs_(a):
    if is_const(a):
        return const(abs(cval(a)))
    if a.op in ('abs', 'ind') or (a.op == 'uf' and a.attr in ('sqrt', 'Phi', 'phi', 'GammaCDF')):
        return a
    if a.op == 'poly':
        lead = a.attr[-1][1]
        if lead < 0:
            a = neg(a)
    return _mk('abs', (a,), None, a.sort)


def toint(a):
    """Real -> Int cast of something already integral / truncation."""
    if a.sort == 'I':
        return a
    if is_const(a):
        c = cval(a)
        return const(int(c))
    return uf('trunc', (a,), 'I')


# ---------------------------------------------------------------- booleans
_NOT = {}          # negations of compound terms (their normal form depends on the declared positive names)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt0':          # 0 < p   -> 0 <= -p
        return le0(neg(a.args[0]))
    if a.op == 'le0':
        return lt0(neg(a.args[0]))
    if a.op in ('and', 'or'):
        k = (a.id, len(POS))
        r = _NOT.get(k)
        if r is None:
            r = _NOT[k] = (or_ if a.op == 'and' else and_)(*[not_(x) for x in a.args])
        return r
    return _mk('not', (a,), None, 'B')


def and_(*xs):
    s = {}
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is FALSE:
                return FALSE
            if y is not TRUE:
                s[y.id] = y
    for y in s.values():
        n = not_(y)
        if n.id in s:
            return FALSE
        if y.op == 'lt0' and lt0(neg(y.args[0])).id in s:
            return FALSE
    if not s:
        return TRUE
    l = [s[k] for k in sorted(s)]
    return l[0] if len(l) == 1 else _mk('and', l, None, 'B')


def or_(*xs):
    s = {}
    for x in xs:
        for y in (x.args if x.op == 'or' else (x,)):
            if y is TRUE:
                return TRUE
            if y is not FALSE:
                s[y.id] = y
    for y in s.values():
        n = not_(y)
        if n.id in s:
            return TRUE
    if not s:
        return FALSE
    l = [s[k] for k in sorted(s)]
    return l[0] if len(l) == 1 else _mk('or', l, None, 'B')


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    x, y = sorted((a, b), key=lambda t: t.id)
    return _mk('iff', (x, y), None, 'B')


POS = set()           # names of data declared positive


def _normsign(p):
    """scale so that the coefficients are coprime integers"""
    if is_const(p):
        return p
    if POS:
        ms = as_poly(p)
        low = {}
        for m in ms:
            for a, e in m:
                if a.op == 'uf' and a.attr in POS:
                    low[a] = 0
        if low:
            for a in low:
                low[a] = min(dict(m).get(a, 0) for m in ms)
            if any(low.values()):
                p = mul(p, *[powi(a, -k) for a, k in low.items()])
    if p.op != 'poly':
        return p
    cs = [Fraction(c) for _, c in p.attr]
    den = math.lcm(*(c.denominator for c in cs))
    return scale(p, Fraction(den, math.gcd(*(int(c * den) for c in cs))))


INF = var('+inf', 'R')


def infsign(p):
    """sign of the infinite part of p = c*inf + finite, None if p has no such form or is finite"""
    if INF not in p.fv:
        return None
    c = None
    for m, k in as_poly(p).items():
        if any(INF in a.fv for a, e in m):
            if len(m) == 1 and m[0] == (INF, 1):
                c = k
            else:
                return None
    return c


UNIT = ('Phi', 'GammaCDF', 'TCDF', 'unif')        # functions with values in [0, 1]


def interval(p):
    """bounds of p when it is made of indicators and probabilities only"""
    if p.op != 'poly' and p.op not in ('uf', 'ind'):
        return None
    lo = hi = Fraction(0)
    for m, c in as_poly(p).items():
        for a, e in m:
            if e < 0 or not (a.op == 'ind' or a.op == 'uf' and a.attr in UNIT):
                return None
        if not m:
            lo, hi = lo + c, hi + c
        elif c > 0:
            hi += c
        else:
            lo += c
    return lo, hi


def _chosen(p):
    """c * indicator(g) * rest -> (g, c * rest)"""
    if p.op == 'poly' and len(p.attr) == 1:
        for a, e in p.attr[0][0]:
            if a.op == 'ind' and e > 0 and len(p.attr[0][0]) > 1:
                return a.args[0], _poly({tuple(x for x in p.attr[0][0] if x[0] is not a): p.attr[0][1]})
    return None


def lt0(p):      # 0 < p
    s = infsign(p)
    if s is not None:
        return const(s > 0)
    g = _chosen(p)
    if g:
        return and_(g[0], lt0(g[1]))
    b = interval(p)
    if b is not None and (b[0] > 0 or b[1] <= 0):
        return const(b[0] > 0)
    if is_const(p):
        return const(bool(cval(p) > 0))
    return _mk('lt0', (_normsign(p),), None, 'B')


def le0(p):      # 0 <= p
    s = infsign(p)
    if s is not None:
        return const(s > 0)
    g = _chosen(p)
    if g:
        return or_(not_(g[0]), le0(g[1]))
    b = interval(p)
    if b is not None and (b[0] >= 0 or b[1] < 0):
        return const(b[0] >= 0)
    if is_const(p):
        return const(bool(cval(p) >= 0))
    return _mk('le0', (_normsign(p),), None, 'B')


def lt(a, b):
    return lt0(sub(b, a))


def le(a, b):
    return le0(sub(b, a))


IRANGE = {}         # integer atom -> bounds
RANKOF = {}         # rank term -> (column, the ranked value)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B' or b.sort == 'B':
        return iff(a, b)
    if a.sort == 'U' or b.sort == 'U':
        x, y = sorted((a, b), key=lambda t: t.id)
        return _mk('equ', (x, y), None, 'B')
    ra, rb = RANKOF.get(a), RANKOF.get(b)
    if ra and rb and ra[0] == rb[0]:
        # two elements of one column have the same rank exactly when they are equal (lemma about rankdata)
        return eq(ra[1], rb[1])
    p = sub(a, b)
    if infsign(p) is not None:
        return FALSE
    if is_const(p):
        return const(bool(cval(p) == 0))
    p = _normsign(p)
    if p.op == 'poly' and p.attr[-1][1] < 0:
        p = neg(p)
    return _mk('eq0', (p,), None, 'B')


def ne(a, b):
    return not_(eq(a, b))


def ind(g):
    """0/1 indicator of a boolean"""
    if g is TRUE:
        return const(1)
    if g is FALSE:
        return const(0)
    if g.op == 'not':
        return sub(const(1), ind(g.args[0]))
    return _mk('ind', (g,), None, 'I')


def pole(c, x):
    """c compares a number with zero that x divides by"""
    c = c.args[0] if c.op == 'not' else c
    if c.op != 'eq0':
        return False
    ats = [m[0][0] for m in as_poly(c.args[0]) if len(m) == 1]
    return len(as_poly(c.args[0])) == 1 and any(e < 0 and a in ats for m in as_poly(x) for a, e in m)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return and_(implies(c, a), or_(c, b))
    if a.sort == 'U':
        return _mk('ite', (c, a, b), None, 'U')
    if (is_const(b) or is_const(a)) and not pole(c, a if is_const(b) else b):
        return add(b, mul(ind(c), sub(a, b))) if is_const(b) else add(a, mul(ind(not_(c)), sub(b, a)))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return _mk('ite', (c, a, b), None, 'I' if a.sort == 'I' and b.sort == 'I' else 'R')


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(le(a, b), b, a)


# ---------------------------------------------------------------- binders
def subst(t, m):
    """capture-avoiding (bound names are disjoint by depth) substitution {var term: term}"""
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return t
    memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if not any(v in t.fv for v in m):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'var':
        r = m.get(t, t)
    elif op == 'poly':
        parts = []
        for mono, c in t.attr:
            x = _poly({(): c})
            for a, e in mono:
                x = mul(x, powi(_subst(a, m, memo), e))
            parts.append(x)
        r = add(*parts)
    elif op == 'bind':
        kind, bvs, nb = t.attr
        # rename bound variables to fresh ones, substitute, rebuild canonically
        fr = [fresh('b') for _ in bvs]
        ren = dict(zip(bvs, fr))
        args = [_subst(a, ren, {}) for a in t.args]
        args = [_subst(a, m, {}) for a in args]
        n = len(bvs)
        r = bind(kind, list(zip(fr, args[:n])), args[n:n + nb], args[n + nb:])
    else:
        args = [_subst(a, m, memo) for a in t.args]
        r = rebuild(t, args)
    memo[t] = r
    return r


def replace(t, m, memo=None):
    """replace whole (ground) subterms; not under binders that could capture: the keys contain no bound variable"""
    memo = {} if memo is None else memo
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'poly':
        parts = []
        for mono, c in t.attr:
            x = _poly({(): c})
            for a, e in mono:
                x = mul(x, powi(replace(a, m, memo), e))
            parts.append(x)
        r = add(*parts)
    elif t.op == 'bind':
        kind, bvs, nb = t.attr
        fr = [fresh('b') for _ in bvs]
        args = [subst(a, dict(zip(bvs, fr))) for a in t.args]
        args = [replace(a, m) for a in args]
        n = len(bvs)
        r = bind(kind, list(zip(fr, args[:n])), args[n:n + nb], args[n + nb:])
    elif not t.args:
        r = t
    else:
        r = rebuild(t, [replace(a, m, memo) for a in t.args])
    memo[t] = r
    return r


def rebuild(t, args):
    op = t.op
    if op == 'uf':
        if t.attr == 'sqrt':
            return sqrt(args[0])
        if t.attr == 'trunc':
            return toint(args[0])
        if t.attr == 'pow':
            return pow_(*args)
        return uf(t.attr, args, t.sort)
    if op == 'abs':
        return abs_(args[0])
    if op == 'ind':
        return ind(args[0])
    if op == 'ite':
        return ite(*args)
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'iff':
        return iff(*args)
    if op == 'lt0':
        return lt0(args[0])
    if op == 'le0':
        return le0(args[0])
    if op == 'eq0':
        return eq(args[0], const(0))
    if op == 'equ':
        return eq(*args)
    raise AssertionError(op)


_BIND_SORT = {'exists': 'B', 'forall': 'B'}


_CMP = {}


def comparisons(t):
    """atoms 0 < p and 0 <= p anywhere in t"""
    r = _CMP.get(t)
    if r is None:
        if t.op == 'poly':
            ch = [a for m, c in t.attr for a, e in m]
        else:
            ch = t.args
        r = frozenset().union(*[comparisons(c) for c in ch]) if ch else frozenset()
        if t.op in ('lt0', 'le0'):
            r = r | {t}
        _CMP[t] = r
    return r


def surely_nonneg(p):
    """p >= 0 because the extents (variables N..) are at least one"""
    tot = Fraction(0)
    for m, c in as_poly(p).items():
        if m and (c < 0 or any(e < 0 or a.op != 'var' or not a.attr.startswith('N') for a, e in m)):
            return False
        tot += c
    return tot >= 0


def split_range(binders, body):
    """the body tests v < a for a constant part a of v's range (joined arrays): the two halves [(binders, body), ...]"""
    cmps = comparisons(body)
    if not cmps:
        return None
    names = set(v for v, _ in binders)
    for v, e in binders:
        if e.fv & names or any(v in e2.fv for _, e2 in binders):
            continue
        for c in cmps:
            if v not in c.fv:
                continue
            p = as_poly(c.args[0])
            k = p.get(((v, 1),))
            if k is None or abs(k) != 1:
                continue
            r = scale(sub(c.args[0], scale(v, k)), -1 / k)          # the atom compares v with r
            if v in r.fv or r.fv & names or any(x.attr.startswith('%') for x in r.fv):
                continue
            if any(cc.denominator != 1 for cc in as_poly(r).values()) or r.sort != 'I' and not is_const(r):
                continue
            # k < 0: v < r or v <= r, true on the first part; k > 0: v > r or v >= r, false on the first part
            first = k < 0
            a = r if (c.op == 'lt0') == first else add(r, const(1))
            e2 = sub(e, a)
            if surely_nonneg(neg(a)):
                return [(binders, replace(body, {c: FALSE if first else TRUE}))]
            if surely_nonneg(neg(e2)):
                return [(binders, replace(body, {c: TRUE if first else FALSE}))]
            if not surely_nonneg(a) or not surely_nonneg(e2):
                continue
            out = []
            for ext, shift, val in ((a, const(0), first), (e2, a, not first)):
                b = replace(body, {c: TRUE if val else FALSE})
                if is_const(ext) and cval(ext) == 1:
                    out.append(([x for x in binders if x[0] is not v], subst(b, {v: shift})))
                else:
                    out.append((binders_with(binders, v, ext), subst(b, {v: add(v, shift)}) if shift is not const(0) else b))
            return out
    return None


def binders_with(binders, v, ext):
    return [(x, ext if x is v else e) for x, e in binders]


def bind(kind, binders, bodies, extra=()):
    """binders: [(var, extent)], bodies under the binder, extra terms outside it."""
    if kind == 'sum':
        return sum_(binders, bodies[0])
    binders = list(binders)
    if kind in ('exists', 'forall'):
        b = bodies[0]
        if b is FALSE or b is TRUE:
            return b
        sp = split_range(binders, b)
        if sp is not None:
            return (or_ if kind == 'exists' else and_)(*[bind(kind, bs, [x], extra) if bs else x for bs, x in sp])
        binders = [(v, e) for v, e in binders if v in b.fv or any(v in e2.fv for _, e2 in binders)]
        if not binders:
            return b
    if kind in ('bmax', 'bmin') and is_const(bodies[1]) and bodies[0] is TRUE:
        return bodies[1]
    return _canon(kind, binders, list(bodies), list(extra))


def _canon(kind, binders, bodies, extra):
    # order: dependency, then extent id
    bs = list(binders)
    bs.sort(key=lambda be: (be[1].id, be[0].id))
    ordered = []
    left = bs[:]
    while left:
        names = set(v for v, _ in left)
        for k, (v, e) in enumerate(left):
            if not (e.fv & names):
                ordered.append(left.pop(k))
                break
        else:
            raise AssertionError('cyclic binder')
    d = 1 + max([b.depth for b in bodies] + [e.depth for _, e in ordered] + [0])
    new = [var('%%%d_%d' % (d, k)) for k in range(len(ordered))]
    ren = {v: n for (v, _), n in zip(ordered, new)}
    exts = [subst(e, ren) for _, e in ordered]
    bodies = [subst(b, ren) for b in bodies]
    sort = _BIND_SORT.get(kind)
    if sort is None:
        sort = 'I' if kind in ('sum', 'bmax', 'bmin') and bodies[-1].sort == 'I' else 'R'
    return _mk('bind', tuple(exts) + tuple(bodies) + tuple(extra), (kind, tuple(new), len(bodies)), sort)


def sum_(binders, body):
    """sum over all binder values in [0,extent) of body (canonical, linear)"""
    binders = list(binders)
    if IRANGE and len(binders) == 1:
        binders = widen(binders, body)
    parts = []
    for mono, c in as_poly(body).items():
        parts.append(scale(_sum_mono(binders, mono), c))
    return add(*parts) if parts else const(0)


def widen(binders, body):
    """a sum over k = 0..max of numbers g, of a body that vanishes when no g equals k: the sum over all possible values"""
    (k, e), = binders
    p = as_poly(e)
    if len(p) != 2 or p.get(()) != 1:
        return binders
    (m, c), = [x for x in p.items() if x[0]]
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0] not in IRANGE or m[0][0].attr[0] != 'bmax':
        return binders
    mx, (lo, hi) = m[0][0], IRANGE[m[0][0]]
    vs, es, bs, _ = open_bind(mx)
    if bs[0] is not TRUE or not is_const(hi) or not is_const(lo) or cval(lo) < 0:
        return binders
    if no_value(body, k, es, lambda us: subst(bs[1], dict(zip(vs, us)))) == const(0):
        return [(k, add(hi, const(1)))]
    return binders


def no_value(t, k, es, val):
    """t where nothing in the range es has the value k"""
    if k not in t.fv:
        return t
    if t.op == 'ite':
        c = no_value(t.args[0], k, es, val)
        if c is TRUE or c is FALSE:
            return no_value(t.args[1 if c is TRUE else 2], k, es, val)
        return ite(c, no_value(t.args[1], k, es, val), no_value(t.args[2], k, es, val))
    if t.op == 'poly':
        parts = []
        for mono, c in t.attr:
            fs = [(no_value(a, k, es, val), e) for a, e in mono]
            if any(e < 0 and is_const(a) and cval(a) == 0 for a, e in fs):
                return t                                    # not defined: no conclusion
            x = _poly({(): c})
            for a, e in fs:
                x = mul(x, powi(a, e))
            parts.append(x)
        return add(*parts)
    if t.op == 'bind':
        kind, bvs, nb = t.attr
        n = len(bvs)
        fr = [fresh('b') for _ in bvs]
        args = [subst(a, dict(zip(bvs, fr))) for a in t.args]
        if list(args[:n]) == list(es):
            key = eq(val(fr), k)
            args = [replace(a, {key: FALSE}) for a in args]
        args = [no_value(a, k, es, val) for a in args]
        return bind(kind, list(zip(fr, args[:n])), args[n:n + nb], args[n + nb:])
    return rebuild(t, [no_value(a, k, es, val) for a in t.args]) if t.args else t


def _sum_mono(binders, mono):
    bvs = set(v for v, _ in binders)
    free, bound = [], []
    for a, e in mono:
        (bound if a.fv & bvs else free).append((a, e))
    # binders not occurring contribute their extent (innermost dependencies handled below)
    used = set()
    for a, e in bound:
        used |= (a.fv & bvs)
    changed = True
    while changed:
        changed = False
        for v, x in binders:
            if v in used and (x.fv & bvs) - used:
                used |= (x.fv & bvs)
                changed = True
    res = const(1)
    for a, e in free:
        res = mul(res, powi_atom(a, e))
    unused = [(v, x) for v, x in binders if v not in used]
    usedb = [(v, x) for v, x in binders if v in used]
    # unused binders whose extent depends on a used binder multiply inside
    inner = const(1)
    for v, x in unused:
        if x.fv & bvs:
            inner = mul(inner, x)
        else:
            res = mul(res, x)
    if not is_const(inner):
        b = inner
        for a, e in bound:
            b = mul(b, powi_atom(a, e))
        return mul(res, sum_(usedb + [], b)) if set(v for v, _ in usedb) >= (inner.fv & bvs) else \
            mul(res, sum_([bx for bx in binders if bx[0] in (used | (inner.fv & bvs))], b))
    if not usedb:
        return res
    # merge one nested sum
    nested = [(a, e) for a, e in bound if a.op == 'bind' and a.attr[0] == 'sum' and e == 1]
    if len(nested) == 1 and not any(a.op == 'bind' and a.attr[0] == 'sum' and e != 1 for a, e in bound):
        a = nested[0][0]
        n = len(a.attr[1])
        fr = [fresh('b') for _ in range(n)]
        ren = dict(zip(a.attr[1], fr))
        exts = [subst(x, ren) for x in a.args[:n]]
        ib = subst(a.args[n], ren)
        b = ib
        for c, e in bound:
            if c is not a:
                b = mul(b, powi_atom(c, e))
        return mul(res, sum_(usedb + list(zip(fr, exts)), b))
    b = const(1)
    for a, e in bound:
        b = mul(b, powi_atom(a, e))
    if len(as_poly(b)) != 1 or list(as_poly(b).values())[0] != 1:
        return mul(res, sum_(usedb, b))
    if all(is_const(x) for _, x in usedb):
        tot = 1
        for _, x in usedb:
            tot *= int(cval(x))
        if tot <= 4:
            parts = []
            for combo in itertools.product(*[range(int(cval(x))) for _, x in usedb]):
                parts.append(subst(b, {v: const(k) for (v, _), k in zip(usedb, combo)}))
            return mul(res, add(*parts)) if parts else const(0)
    sp = split_range(usedb, b)
    if sp is not None:
        return mul(res, add(*[sum_(bs, x) for bs, x in sp]))
    return mul(res, _canon('sum', usedb, [b], []))


def powi_atom(a, e):
    return _poly({((a, e),): Fraction(1)})


def open_bind(t):
    """fresh instances of the bound variables: returns (vars, extents, bodies, extra)"""
    kind, bvs, nb = t.attr
    n = len(bvs)
    fr = [fresh('k') for _ in bvs]
    ren = dict(zip(bvs, fr))
    args = [subst(a, ren) for a in t.args]
    return fr, args[:n], args[n:n + nb], args[n + nb:]


def subterms(t, acc=None, into_binders=False):
    acc = {} if acc is None else acc
    stack = [t]
    while stack:
        x = stack.pop()
        if x in acc:
            continue
        acc[x] = True
        if x.op == 'poly':
            for m, c in x.attr:
                for a, e in m:
                    stack.append(a)
        elif x.op == 'bind' and not into_binders:
            n = len(x.attr[1])
            stack.extend(x.args[n + x.attr[2]:])
        else:
            stack.extend(x.args)
    return acc


# ---------------------------------------------------------------- printing
def show(t, lim=4000):
    s = _show(t)
    return s if len(s) < lim else s[:lim] + '...'


def _show(t):
    op = t.op
    if op == 'var':
        return t.attr
    if op == 'poly':
        if t.attr == ():
            return '0'
        out = []
        for m, c in t.attr:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for a, e in m:
                s = _show(a)
                if a.op == 'poly':
                    s = '(' + s + ')'
                f.append(s if e == 1 else '%s^%d' % (s, e))
            out.append('*'.join(f))
        return ' + '.join(out)
    if op == 'uf':
        return '%s(%s)' % (t.attr, ', '.join(map(_show, t.args)))
    if op == 'bind':
        kind, bvs, nb = t.attr
        n = len(bvs)
        return '%s[%s](%s%s)' % (kind, ', '.join('%s<%s' % (v.attr, _show(e)) for v, e in zip(bvs, t.args[:n])),
                                 '; '.join(map(_show, t.args[n:n + nb])),
                                 ''.join(' | ' + _show(x) for x in t.args[n + nb:]))
    if op == 'lt0':
        return '0 < ' + _show(t.args[0])
    if op == 'le0':
        return '0 <= ' + _show(t.args[0])
    if op == 'eq0':
        return '(%s) = 0' % _show(t.args[0])
    return '%s(%s)' % (op, ', '.join(map(_show, t.args)))


# ---------------------------------------------------------------- concrete evaluation (engine self-check)
class EvalError(Exception):
    pass


def _exact(r):
    """exact value of a concrete number (approximations are only made inside library functions)"""
    if isinstance(r, float):
        if r != r or r in (float('inf'), float('-inf')):
            raise EvalError('no value')
        return Fraction(r)
    return r


def evaluate(t, env, funcs, binders, exact=False):
    """env: {var name: number}; funcs: {uf name: callable}; binders: {kind: callable(values lists)}"""
    memo = {}

    def ev(t, env, memo):
        key = t
        if not t.fv or True:
            r = memo.get(key)
            if r is not None:
                return r
        op = t.op
        if op == 'true':
            r = True
        elif op == 'false':
            r = False
        elif op == 'var':
            if t.attr not in env:
                raise EvalError('unbound ' + t.attr)
            r = env[t.attr]
            if exact:
                r = _exact(r)
        elif op == 'poly':
            r = 0
            for m, c in t.attr:
                x = c if exact else float(c) if c.denominator != 1 else int(c)
                vs = [(ev(a, env, memo), e) for a, e in m]
                if any(a.op == 'ind' and v == 0 for (a, e), (v, _) in zip(m, vs)):    # not selected: whatever the value
                    continue
                for v, e in vs:
                    if e < 0:
                        if v == 0:
                            if exact:
                                raise EvalError('division by zero')
                            x = float('nan')
                        else:
                            x = x / (v ** (-e))
                    else:
                        x = x * (v ** e)
                r = r + x
        elif op == 'uf':
            if t.attr not in funcs:
                raise EvalError('no interpretation for ' + t.attr)
            r = funcs[t.attr](*[float(x) if isinstance(x, Fraction) and x.denominator != 1 else int(x) if isinstance(x, Fraction) else x
                                for x in [ev(a, env, memo) for a in t.args]])
            if exact:
                r = _exact(r)
        elif op == 'abs':
            r = abs(ev(t.args[0], env, memo))
        elif op == 'ind':
            r = 1 if ev(t.args[0], env, memo) else 0
        elif op == 'ite':
            r = ev(t.args[1], env, memo) if ev(t.args[0], env, memo) else ev(t.args[2], env, memo)
        elif op == 'not':
            r = not ev(t.args[0], env, memo)
        elif op == 'and':
            r = all(ev(a, env, memo) for a in t.args)
        elif op == 'or':
            r = any(ev(a, env, memo) for a in t.args)
        elif op == 'iff':
            r = bool(ev(t.args[0], env, memo)) == bool(ev(t.args[1], env, memo))
        elif op == 'lt0':
            r = ev(t.args[0], env, memo) > 0
        elif op == 'le0':
            r = ev(t.args[0], env, memo) >= 0
        elif op == 'eq0':
            r = ev(t.args[0], env, memo) == 0
        elif op == 'bind':
            kind, bvs, nb = t.attr
            n = len(bvs)
            rows = []

            def rec(k, env2):
                if k == n:
                    m2 = {}
                    rows.append([ev(b, env2, m2) for b in t.args[n:n + nb]])
                    return
                e = ev(t.args[k], env2, {})
                for i in range(int(round(e))):
                    env3 = dict(env2)
                    env3[bvs[k].attr] = i
                    rec(k + 1, env3)
            rec(0, env)
            extra = [ev(x, env, memo) for x in t.args[n + nb:]]
            if kind == 'sum':
                r = sum(x[0] for x in rows)
            elif kind == 'exists':
                r = any(x[0] for x in rows)
            elif kind == 'forall':
                r = all(x[0] for x in rows)
            elif kind == 'bmax':
                r = max([x[1] for x in rows if x[0]], default=float('nan'))
            elif kind == 'bmin':
                r = min([x[1] for x in rows if x[0]], default=float('nan'))
            else:
                r = binders[kind](rows, extra)
            if exact and kind not in ('exists', 'forall'):
                r = _exact(r)
        else:
            raise EvalError(op)
        memo[key] = r
        return r
    return ev(t, env, memo)
