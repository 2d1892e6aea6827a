"""Loads the real sources of /repo/PyAnEn for symbolic execution.

Mechanical rewriting done on every run (and nothing else): `for` statements inside functions get a second branch for iterables of
symbolic length, list comprehensions and generator expressions with one generator become calls taking the element expression as a
function, list displays are wrapped so that appends inside symbolic loops are seen, str.join and attribute stores are routed through a
hook, and each function records that it was entered.  Library modules are replaced by their assumed contracts."""
import ast
import builtins
import copy
import os
import types
from . import terms as T
from . import core as C
from . import npmodel as M
from . import libmodels as L
from .core import SArr, SNum, SList, SRange, Unsupported, TRUE, FALSE, lift, is_scalar, from_token, token, mkint

PKG = 'PyAnEn'


# ---------------------------------------------------------------- AST rewriting
def assigned(nodes):
    names = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names:
                names.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in names:
                names.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
    v = V()
    for n in nodes:
        v.visit(n)
    return names


def escapes(nodes):
    """does the body leave the loop (break / return / yield)?"""
    found = []

    def walk(n, inloop):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)):
            found.append(n)
        if isinstance(n, ast.Break) and not inloop:
            found.append(n)
        for c in ast.iter_child_nodes(n):
            walk(c, inloop or isinstance(n, (ast.For, ast.While)))
    for n in nodes:
        walk(n, False)
    return bool(found)


class ContinueToReturn(ast.NodeTransformer):
    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)

    def visit_For(self, n):
        return n
    visit_While = visit_FunctionDef = visit_Lambda = visit_For


def call(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id='vc__', ctx=ast.Load()), attr=name, ctx=ast.Load()), args=list(args), keywords=[])


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.depth = 0
        self.n = 0
        self.qual = []
        self.globals = [set()]

    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        d, self.depth = self.depth, 0
        self.generic_visit(n)
        self.depth = d
        self.qual.pop()
        return n

    def visit_FunctionDef(self, n):
        self.qual.append(n.name)
        self.depth += 1
        g = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                g |= set(x.names)
        self.globals.append(g)
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.block(n.body)
        self.globals.pop()
        self.depth -= 1
        mark = ast.Expr(call('enter', ast.Constant(self.mod + '.' + '.'.join(self.qual))))
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(k, mark)
        self.qual.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_For(self, n):
        n.iter = self.visit(n.iter)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        if self.depth == 0:
            return n
        self.n += 1
        p = 'vc__%d' % self.n
        it = p + '_it'
        names = [x for x in dict.fromkeys(assigned([n.target]) + assigned(n.body)) if x not in self.globals[-1]]
        pre = ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=call('iterable', n.iter))
        nat = ast.For(target=n.target, iter=ast.Name(id=it, ctx=ast.Load()), body=n.body, orelse=n.orelse)
        if escapes(n.body) or n.orelse:
            sym = [ast.Expr(call('leave_loop', ast.Name(id=it, ctx=ast.Load())))]
        else:
            body = [ContinueToReturn().visit(copy.deepcopy(s)) for s in n.body]
            mk = lambda nm, arg, b: ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                                    body=([ast.Nonlocal(names=list(names))] if names else []) + b, decorator_list=[], type_params=[])
            bodyf = mk(p + '_body', p + '_x', [ast.Assign(targets=[copy.deepcopy(n.target)], value=ast.Name(id=p + '_x', ctx=ast.Load()))] + body)
            setf = mk(p + '_set', p + '_d', [ast.If(test=ast.Compare(left=ast.Constant(v), ops=[ast.In()], comparators=[ast.Name(id=p + '_d', ctx=ast.Load())]),
                                                    body=[ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=ast.Subscript(
                                                        value=ast.Name(id=p + '_d', ctx=ast.Load()), slice=ast.Constant(v), ctx=ast.Load()))], orelse=[]) for v in names] or [ast.Pass()])
            get = ast.Dict(keys=[ast.Constant(v) for v in names],
                           values=[ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Name(id=v, ctx=ast.Load())) for v in names])
            sym = [bodyf, setf, ast.Expr(call('symfor', ast.Name(id=it, ctx=ast.Load()), ast.Name(id=p + '_body', ctx=ast.Load()), get, ast.Name(id=p + '_set', ctx=ast.Load())))]
        st = ast.If(test=call('native', ast.Name(id=it, ctx=ast.Load())), body=[nat], orelse=sym)
        return [ast.copy_location(x, n) for x in (pre, st)]

    def comp(self, n):
        if len(n.generators) != 1 or n.generators[0].is_async:
            self.generic_visit(n)
            return n
        g = n.generators[0]
        if any(isinstance(x, (ast.NamedExpr, ast.Yield)) for x in ast.walk(n)):
            self.generic_visit(n)
            return n
        elt, itr = self.visit(n.elt), self.visit(g.iter)
        ifs = [self.visit(i) for i in g.ifs]
        fn = self.lam(g.target, elt)
        cond = self.lam(g.target, ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs)) if ifs else ast.Constant(None)
        return ast.copy_location(call('listcomp', itr, fn, cond), n)

    def lam(self, target, body):
        def args(names):
            return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[])
        if isinstance(target, ast.Name):
            return ast.Lambda(args=args([target.id]), body=body)
        self.n += 1
        x = 'vc__%d_t' % self.n
        # nested tuple targets are unpacked by a helper
        names = [t.id for t in ast.walk(target) if isinstance(t, ast.Name)]
        pat = self.pattern(target)
        return ast.Lambda(args=args([x]), body=ast.Call(func=ast.Lambda(args=args(names), body=body), args=[ast.Starred(
            value=call('unpack', ast.Name(id=x, ctx=ast.Load()), pat), ctx=ast.Load())], keywords=[]))

    def pattern(self, t):
        if isinstance(t, ast.Name):
            return ast.Constant(0)
        return ast.Tuple(elts=[self.pattern(e) for e in t.elts], ctx=ast.Load())

    def visit_ListComp(self, n):
        return self.comp(n)

    def visit_GeneratorExp(self, n):
        return self.comp(n)

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call('plist', n), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1 and not n.keywords and isinstance(n.func.value, ast.Constant):
            return ast.copy_location(call('join', n.func.value, n.args[0]), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(call('setattr_', t.value, ast.Constant(t.attr), n.value)), n)
        return n


# ---------------------------------------------------------------- run-time hooks
class PList(list):
    """list that knows the symbolic loop it was created in"""
    __slots__ = ('depth', 'looprun', 'sym')

    def __init__(self, *a):
        list.__init__(self, *a)
        self.sym = None                 # set when a symbolic loop has appended to the (empty) list
        self.looprun = C.CUR.loops[-1] if C.CUR.loops else None

    def _foreign(self):
        return bool(C.CUR.loops) and self.looprun is not C.CUR.loops[-1]

    def __getitem__(self, k):
        return list.__getitem__(self, k) if self.sym is None else self.sym[k]

    def __iter__(self):
        return list.__iter__(self) if self.sym is None else iter(self.sym)

    def __len__(self):
        return list.__len__(self) if self.sym is None else len(self.sym)

    def __bool__(self):
        return list.__len__(self) > 0 if self.sym is None else bool(self.sym)

    def append(self, v):
        if self.sym is not None:
            raise Unsupported('append to a list built by a symbolic loop')
        if self._foreign():
            l = C.CUR.loops[-1]
            l.appends.setdefault(id(self), (self, []))[1].append(v)
            return
        list.append(self, v)

    def _chk(self):
        if self.sym is not None:
            raise Unsupported('list built by a symbolic loop is changed')
        if self._foreign():
            raise Unsupported('list changed inside a symbolic loop')

    def extend(self, x):
        if self._foreign():
            for v in x:
                self.append(v)
            return
        x = C.to_iter(x)
        if isinstance(x, SList):
            raise Unsupported('list extended by a symbolic list')
        list.extend(self, x)

    def insert(self, *a):
        self._chk()
        list.insert(self, *a)

    def pop(self, *a):
        self._chk()
        return list.pop(self, *a)

    def remove(self, *a):
        self._chk()
        list.remove(self, *a)

    def sort(self, **k):
        self._chk()
        if any(isinstance(x, SNum) and not T.is_const(x.v) for x in self):
            raise Unsupported('sort of symbolic values')
        list.sort(self, **k)

    def reverse(self):
        self._chk()
        list.reverse(self)

    def clear(self):
        self._chk()
        list.clear(self)

    def __setitem__(self, k, v):
        self._chk()
        list.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._chk()
        list.__delitem__(self, k)

    def __iadd__(self, x):
        if self._foreign() or self.sym is not None:
            self.extend(x)
            return self
        list.extend(self, x)
        return self

    def __add__(self, x):
        if isinstance(x, SList):
            raise Unsupported('concatenation with a symbolic list')
        return PList(list.__add__(self, list(x)))

    def __mul__(self, n):
        if isinstance(n, SNum):
            return C.list_repeat(self, n)
        return PList(list.__mul__(self, n))
    __rmul__ = __mul__

    def __hash__(self):
        return id(self)


class Slot:
    """a list that became symbolic after a loop appended to it keeps its identity through this indirection"""


class Block:
    """all the items an inner loop appends"""

    def __init__(self, sl):
        self.sl = sl


def dep_terms(ts, vs):
    return any(t.fv & set(vs) for t in ts)


class Poison:
    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(self.why)

    def _u(self, *a, **k):
        raise Unsupported(self.why)
    __call__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __getitem__ = __iter__ = __len__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __iadd__ = __float__ = __int__ = __index__ = __str__ = __format__ = _u
    __hash__ = object.__hash__


strtoken = C.strtoken


class VC:
    def __init__(self):
        self.entered = set()

    def enter(self, q):
        self.entered.add(q)

    def plist(self, l):
        return PList(l)

    def iterable(self, x):
        if isinstance(x, Poison):
            x._u()
        if C.SYMLOOPS and isinstance(x, range) and len(x) >= 8:
            return SList((T.const(len(x)),), lambda idx, x=x: SNum(T.add(T.const(x.start), T.scale(idx[0], x.step)), FALSE, 'int',
                                                                   parts=tuple(idx) if x.start == 0 and x.step == 1 else None))
        x = C.to_iter(x)
        if not C.SYMLOOPS and isinstance(x, (range, list)) and len(x) >= 8:
            return self.watched(x)
        return x

    def watched(self, x):
        """a long native loop: many decisions inside are better summarised (see C.SYMLOOPS)"""
        c = C.CUR
        c.native = getattr(c, 'native', 0) + 1
        try:
            yield from x
        finally:
            c.native -= 1

    def native(self, x):
        return not isinstance(x, SList)

    def leave_loop(self, it):
        raise Unsupported('symbolic loop left early')

    def unpack(self, x, pat):
        if pat == 0:
            return [x]
        if isinstance(x, SArr):
            x = list(x)
        x = list(x)
        if len(x) != len(pat):
            raise ValueError('not enough values to unpack')
        out = []
        for a, p in zip(x, pat):
            out += self.unpack(a, p)
        return out

    def listcomp(self, it, fn, cond):
        x = C.to_iter(it)
        if not isinstance(x, SList):
            r = PList()
            for y in x:
                if cond is None or cond(y):
                    list.append(r, fn(y))
            return r
        if cond is None:
            return C.map_list(fn, x)
        return C.filter_map(fn, cond, x)

    def join(self, sep, x):
        x = C.to_iter(x)
        if isinstance(x, SList):
            vs = C.generic(x.exts)
            s = x.item(vs)
            return strtoken(('join', sep, tuple(x.exts), tuple(vs), s))
        return sep.join(list(x))

    def setattr_(self, obj, name, v):
        if C.CUR.loops:
            l = C.CUR.loops[-1]
            d = l.__dict__.setdefault('attrs', {})
            if (id(obj), name) not in d:
                d[(id(obj), name)] = (obj, obj.__dict__.get(name, d))
        setattr(obj, name, v)

    # ---- a for statement over a symbolic iterable
    def symfor(self, it, body, get, put):
        if isinstance(it, C.Distinct):
            return self.distinct_for(it, body, get, put)
        vs = C.generic(it.exts)
        x = it.item(vs)
        g = it.guard(vs) if it.guard is not None else None

        def read():
            d = {}
            for k, f in get.items():
                try:
                    d[k] = f()
                except NameError:
                    pass
            return d
        before = read()
        acc = {}
        accarr = {}

        def start():
            d = {}
            for k, v in before.items():
                d[k] = acc.get(k, v)
            put(d)

        def run():
            start()
            body(x)
            return read()
        # first pass: find out which variables change
        lists0 = {}
        res = C.explore_local(it.exts, vs, run, g)
        changed = set()
        for c, d, l in res:
            for k, v in d.items():
                if k in before and v is not before[k]:
                    changed.add(k)
        for k in changed:
            v = before[k]
            if is_scalar(v):
                vv, nn, kk = lift(v)
                acc[k] = SNum(T.fresh('acc', 'R'), T.fresh('accn', 'B'), 'float' if kk == 'bool' else 'float')
            elif isinstance(v, SArr) and v.guard is None and v.kind in ('float', 'int') and g is None and not it.unordered:
                nm = T.fresh('accarr').attr
                acc[k] = SArr.new(v.axes, lambda idx, nm=nm: (T.uf(nm, tuple(idx), 'R'), T.uf(nm + '?', tuple(idx), 'B')), v.kind)
                accarr[k] = nm
            else:
                acc[k] = Poison('loop-carried variable ' + k)
        attrs = {}
        for c, d, l in res:
            for key, (o, old) in getattr(l, 'attrs', {}).items():
                attrs.setdefault(key, (o, old))
        self._restore(attrs, res)
        for key, (o, old) in attrs.items():
            setattr(o, key[1], Poison('attribute set in a symbolic loop'))
        if changed or attrs:
            res = C.explore_local(it.exts, vs, run, g)
            self._poison(res)
        C.fold_effects(it, vs, [(c, l) for c, _, l in res])
        # appended lists
        app = {}
        for c, d, l in res:
            for i, (lst, vals) in l.appends.items():
                app.setdefault(i, (lst, []))[1].append((c, vals))
        for i, (lst, cases) in app.items():
            if len(cases) != len(res) or any(len(v) != len(cases[0][1]) for _, v in cases):
                if all(len(v) == 1 for _, v in cases) and lst.sym is None and len(lst) == 0:
                    keep = T.or_(*[c for c, _ in cases])
                    gg = T.and_(g, keep) if g is not None else keep
                    val = C.merge([(c, v[0]) for c, v in cases]) if len(cases) > 1 else cases[0][1][0]
                    self._become(lst, SList(it.exts, C.subst_closure(val, vs), it.unordered, lambda idx, gg=gg: T.subst(gg, dict(zip(vs, idx)))))
                    continue
                raise Unsupported('a varying number of items is appended')
            n = len(cases[0][1])
            if n != 1 or getattr(lst, 'sym', None) is not None or len(lst) != 0:
                raise Unsupported('several items appended per iteration')
            if any(isinstance(v[0], Block) for _, v in cases):
                if len(cases) != 1 or it.guard is not None or dep_terms(cases[0][1][0].sl.exts, vs) or it.unordered or cases[0][1][0].sl.unordered:
                    raise Unsupported('items appended by an inner loop')
                sl, k = cases[0][1][0].sl, len(vs)
                self._become(lst, SList(tuple(it.exts) + tuple(sl.exts),
                                        lambda idx, sl=sl, k=k: C.subst_val(sl.item(idx[k:]), dict(zip(vs, idx[:k])))))
                continue
            val = cases[0][1][0] if len(cases) == 1 else C.merge([(c, v[0]) for c, v in cases])
            self._become(lst, SList(it.exts, C.subst_closure(val, vs), it.unordered, it.guard), get, put, before)
        # values of the variables after the loop
        after = {}
        names = set()
        for c, d, l in res:
            names |= set(d)
        for k in names:
            if k in acc and isinstance(acc[k], SNum):
                vals = [(c, d[k]) for c, d, l in res if k in d]
                after[k] = self._accum(it, vs, g, before[k], acc[k], vals)
            elif k in accarr:
                after[k] = self._accum_array(it, vs, before[k], accarr[k], [(c, d[k]) for c, d, l in res if k in d], len(res))
            elif k in before and k not in changed:
                after[k] = before[k]
            elif all(k in d for c, d, l in res) and len({id(d[k]) for c, d, l in res}) == 1 and not dep(res[0][1][k], vs):
                after[k] = res[0][1][k] if k not in acc else Poison('value after the loop')
            else:
                after[k] = Poison('value of %s after a symbolic loop' % k)
        put(after)

    def distinct_for(self, it, body, get, put):
        def read():
            d = {}
            for k, f in get.items():
                try:
                    d[k] = f()
                except NameError:
                    pass
            return d
        before = read()
        v = T.fresh('dv', 'R' if it.u.src.kind == 'float' else 'I')
        x = it.value(v)

        def run():
            put(before)
            body(x)
            return read()
        res = C.fold_distinct(it, v, run)
        after = {}
        for c, d, l in res:
            for k in d:
                same = k in before and all(q.get(k) is before[k] for _, q, _ in res)
                after[k] = before[k] if same else Poison('value of %s after a loop over distinct values' % k)
        put(after)

    def _restore(self, attrs, res):
        pass

    def _poison(self, res):
        for c, d, l in res:
            for key, (o, old) in getattr(l, 'attrs', {}).items():
                setattr(o, key[1], Poison('attribute set in a symbolic loop'))

    def _become(self, lst, sl, get=None, put=None, before=None):
        """the concrete (empty) list object turns into a symbolic one"""
        if lst._foreign():
            # an inner loop: the items are a block of what the enclosing loop appends
            if sl.guard is not None:
                raise Unsupported('varying number of items appended by an inner loop')
            C.CUR.loops[-1].appends.setdefault(id(lst), (lst, []))[1].append(Block(sl))
            return
        lst.sym = sl

    def _accum(self, it, vs, g, v0, a, vals):
        if not all(is_scalar(v) for _, v in vals):
            return Poison('accumulated value')
        new = C.merge(vals) if len(vals) > 1 else vals[0][1]
        nv, nn, nk = lift(new)
        nv = tonum_(nv)
        d = T.sub(nv, a.v)
        if a.v in d.fv and len(vals) > 1:
            # the addend of every path
            d = tonum_(lift(C.merge([(c, SNum(T.sub(tonum_(lift(v)[0]), a.v), FALSE, 'float')) for c, v in vals]))[0])
        x0, n0, k0 = lift(v0)
        if a.v in d.fv or a.nan in d.fv:
            if nv.fv & {a.v} or nn.fv & {a.nan, a.v}:
                return Poison('loop-carried value')
            return Poison('value of the last iteration')
        t1, t0 = T.subst(nn, {a.nan: TRUE}), T.subst(nn, {a.nan: FALSE})
        if t1 is not TRUE and t1 is not t0 or a.v in nn.fv:
            return Poison('loop-carried NaN flag')
        bs = list(zip(vs, it.exts))
        gi = T.ind(g) if g is not None else T.const(1)
        val = T.add(tonum_(x0), T.sum_(bs, T.mul(gi, d)))
        nan = T.or_(n0, T.bind('exists', bs, [T.and_(g, t0) if g is not None else t0]))
        k = 'int' if k0 == 'int' and d.sort == 'I' else 'float'
        return SNum(val, nan, k, pypy=False)


    def _accum_array(self, it, vs, a0, nm, vals, n):
        """x = x + f(i) for an array x: the elements accumulate one by one"""
        if len(vals) != n or not all(isinstance(v, SArr) and v.guard is None and v.axes == a0.axes for _, v in vals):
            return Poison('accumulated array')
        new = C.merge(vals) if len(vals) > 1 else vals[0][1]
        f0, f1 = a0.fn(), new.fn()
        ix = C.generic(a0.exts)
        me, men = T.uf(nm, tuple(ix), 'R'), T.uf(nm + '?', tuple(ix), 'B')
        v, nn = f1(ix)
        d = T.sub(tonum_(v), me)

        def free(t):
            return not any(x.op == 'uf' and str(x.attr).startswith(nm) for x in T.subterms(t, into_binders=True))
        t0 = FALSE if nn is men else T.or_(*[x for x in nn.args if x is not men]) if nn.op == 'or' and men in nn.args else None
        if t0 is None or not free(d) or not free(t0):
            return Poison('loop-carried array')
        bs = list(zip(vs, it.exts))

        def elem(idx):
            m = dict(zip(ix, idx))
            e0, n0 = f0(idx)
            return (T.add(tonum_(e0), T.sum_(bs, T.subst(d, m))), T.or_(n0, T.bind('exists', bs, [T.subst(t0, m)])))
        return SArr.new(a0.axes, elem, new.kind)


def tonum_(v):
    return T.ind(v) if v.sort == 'B' else v


def dep(v, vs):
    s = set(vs)
    if isinstance(v, SNum):
        return bool(v.v.fv & s or v.nan.fv & s)
    if isinstance(v, (int, float, str, bool, type(None))):
        return False
    return True


def sym(x):
    """resolve a list that has become symbolic"""
    if isinstance(x, PList):
        if x.sym is not None:
            return x.sym
    return x


_ti = C.to_iter
_arr = M._array
_arrl = M._arrlike


def to_iter(x):
    return _ti(sym(x))


C.to_iter = to_iter
M._array = lambda x: _arr(sym(x))
M._arrlike = lambda x: _arrl(sym(x))
L.vzip.__globals__['C'].to_iter = to_iter


# ---------------------------------------------------------------- builtins seen by the code
def v_isinstance(x, t):
    if isinstance(t, tuple):
        return builtins.any(v_isinstance(x, y) for y in t)
    x = x
    if isinstance(t, M.TypeShim):
        k = t.pyvc_kind
        return isinstance(x, SNum) and x.pypy is False and x.kind == k
    if isinstance(x, SNum):
        if t is v_int:
            return x.kind in ('int', 'bool') and x.pypy is not False
        if t is v_float:
            return x.kind == 'float'
        if t is v_bool:
            return x.kind == 'bool' and x.pypy is not False
        return t is object
    if t is v_int:
        return isinstance(x, int)
    if t is v_float:
        return isinstance(x, float)
    if t is v_bool:
        return isinstance(x, bool)
    if t is v_str:
        return isinstance(x, str)
    if t is v_list:
        return isinstance(x, (list, SList)) and not isinstance(x, SRange)
    if t is v_tuple:
        return isinstance(x, tuple)
    if t is SArr:
        return isinstance(x, SArr)
    if isinstance(t, type):
        return isinstance(x, t)
    try:
        return isinstance(x, t)
    except TypeError:
        raise Unsupported('isinstance against %r' % (t,))


class _Type(type):
    def __instancecheck__(cls, x):
        return v_isinstance(x, cls)


def v_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SNum):
        return {'int': v_int, 'float': v_float, 'bool': v_bool}[x.kind] if x.pypy is not False else M.TypeShim(x.kind, 'np.' + x.kind)
    t = type(x)
    return {int: v_int, float: v_float, bool: v_bool, str: v_str, list: v_list, PList: v_list, tuple: v_tuple}.get(t, t)


class v_int:
    pyvc_kind = 'int'
    __name__ = 'int'

    def __new__(cls, x=0, *a):
        if isinstance(x, str):
            t = from_token(x)
            if t is not None:
                if t.kind != 'int':
                    raise ValueError('invalid literal for int()')
                return t
            if '\u27e6' in x:
                raise Unsupported('int of a symbolic string')
            return int(x, *a)
        if isinstance(x, (SNum, SArr)):
            return C.scalar_cast(x, 'int')
        return int(x)


class v_float:
    pyvc_kind = 'float'

    def __new__(cls, x=0.0):
        if isinstance(x, str):
            t = from_token(x)
            if t is not None:
                return C.scalar_cast(t, 'float')
            return float(x)
        if isinstance(x, (SNum, SArr)):
            return C.scalar_cast(x, 'float')
        return float(x)


class v_bool:
    pyvc_kind = 'bool'

    def __new__(cls, x=False):
        return bool(x)


class v_str:
    def __new__(cls, x=''):
        if isinstance(x, SNum):
            return token(x)
        return str(x)


class v_list:
    def __new__(cls, x=()):
        x = C.to_iter(x)
        if isinstance(x, SRange):
            return SList(x.exts, x._item)
        if isinstance(x, SList):
            return SList(x.exts, x._item, x.unordered, x.guard)
        return PList(x)


class v_tuple:
    def __new__(cls, x=()):
        x = C.to_iter(x)
        if isinstance(x, SList):
            return x
        return tuple(x)


def v_len(x):
    x = sym(x)
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return x.axis_len(0)
    if isinstance(x, SList):
        return x.length()
    if isinstance(x, SNum):
        raise TypeError('object of type %s has no len()' % x.kind)
    if isinstance(x, M.UniqueVals):
        return M.UniqLen(x)
    return len(x)


def v_range(*a):
    if len(a) == 2 and isinstance(a[0], int) and a[0] == 0:
        a = (a[1],)
    if len(a) == 1 and isinstance(a[0], M.UniqLen):
        return C.Distinct(a[0].u, True)
    if len(a) == 1 and isinstance(a[0], SNum) and a[0].count is not None:
        return C.selected_range(a[0])
    if len(a) == 1 and isinstance(a[0], SNum):
        n = a[0]
        if n.kind != 'int':
            raise TypeError("'float' object cannot be interpreted as an integer")
        if T.is_const(n.v):
            return range(int(T.cval(n.v)))
        ib = L.int_bounds(n.v)
        if n.ext is None and not (ib and T.is_const(ib[0]) and T.cval(ib[0]) >= 0) and C.SOLVER.decide(T.le(T.const(0), n.v), C.hyps()) is not True:
            raise Unsupported('range with a possibly negative bound')
        return SRange(n)
    if len(a) == 2 and any(isinstance(x, SNum) for x in a):
        lo, hi = a
        n = hi - lo
        if isinstance(n, int):
            n0 = lo
            return [n0 + k for k in range(n)]
        if C.SOLVER.decide(T.le(T.const(0), n.v), C.hyps()) is not True:
            raise Unsupported('range with symbolic bounds')
        lv = lift(lo)[0]
        return SList((n.v,), lambda idx: SNum(T.add(lv, idx[0]), FALSE, 'int'))
    if any(isinstance(x, SNum) for x in a):
        return range(*[x.__index__() if isinstance(x, SNum) else x for x in a])
    return range(*a)


def v_enumerate(x, start=0):
    x = C.to_iter(x)
    if isinstance(x, SList):
        x = C.in_order(x)
        if start != 0 or x.guard is not None:
            raise Unsupported('enumerate')
        return SList(x.exts, lambda idx: (C.index_num(x.exts, idx), x.item(idx)))
    return list(enumerate(x, start))


def v_sum(x, start=0):
    x = C.to_iter(x)
    if isinstance(x, SList):
        vs = C.generic(x.exts)
        e = x.item(vs)
        if is_scalar(e):
            v, n, k = lift(e)
            g = x.guard(vs) if x.guard is not None else TRUE
            bs = list(zip(vs, x.exts))
            r = SNum(T.sum_(bs, T.mul(T.ind(g), tonum_(v))), T.bind('exists', bs, [T.and_(g, n)]), 'float' if k == 'float' else 'int')
            return r + start if not (isinstance(start, int) and start == 0) else r
        a = M.stack_slist(x)
        return M.NP['sum'](a, axis=0)
    r = start
    for y in x:
        r = r + y
    return r


def _fold(x, f, name):
    def g(*a, **k):
        if k:
            raise Unsupported(name)
        if len(a) == 1:
            y = C.to_iter(a[0])
            if isinstance(y, SList):
                if y.unordered is None:
                    raise Unsupported(name)
                return f(M.array(y))
            a = list(y)
        a = list(a)
        if all(isinstance(q, (int, float, str, bool)) for q in a):
            return getattr(builtins, name)(a)
        r = a[0]
        for q in a[1:]:
            c = (q < r) if name == 'min' else (q > r)
            r = q if (c if isinstance(c, bool) else bool(c)) else r
        return r
    return g


def v_anyall(name):
    def g(x):
        x = C.to_iter(x)
        if isinstance(x, SList):
            return bool(M.NP[name](M.array(x)))
        return getattr(builtins, name)(x)
    return g


def v_hasattr(x, n):
    if isinstance(x, SNum):
        return n in ('shape', 'ndim', 'dtype', 'size') and x.pypy is False
    if isinstance(x, SArr) and n in ('keys', 'items'):
        return False
    if isinstance(x, SList):
        return hasattr(list, n)
    try:
        return hasattr(x, n)
    except Unsupported:
        return True


def v_sorted(x, **k):
    x = C.to_iter(x)
    if isinstance(x, SList) and not isinstance(x, C.Distinct) and x.guard is None and len(x.exts) == 1 and not k.get('reverse') and set(k) <= {'key', 'reverse'}:
        vs = C.generic(x.exts)
        y = x.item(vs)
        y = k['key'](y) if k.get('key') is not None else y
        y = y[0] if isinstance(y, (tuple, list)) and len(y) else y
        if isinstance(y, SNum) and y.v is vs[0] and y.nan is FALSE:
            return SList(x.exts, x._item)                  # sorted by the position each item was made for
    if isinstance(x, SList) or any(isinstance(y, SNum) and not T.is_const(y.v) for y in x):
        raise Unsupported('sorted() of symbolic values')
    return PList(sorted(x, **k))


def v_map(f, *x):
    return L.process_map(f, *x)


def v_abs(x):
    return abs(x)


def v_round(x, n=None):
    if isinstance(x, (SNum, SArr)):
        from . import npmodel
        r = npmodel.NP['round'](x, 0 if n is None else n)
        return r.astype(int) if n is None else r
    return round(x, n) if n is not None else round(x)


# ---------------------------------------------------------------- package loading
class World:
    """one fresh execution of the package under the current context"""
    trees = {}

    def __init__(self, repo, overrides=None):
        self.repo = repo
        self.vc = VC()
        self.mods = {}
        self.libs = L.modules()
        self.overrides = overrides or {}
        b = dict(vars(builtins))
        b.update(isinstance=v_isinstance, int=v_int, float=v_float, bool=v_bool, str=v_str, list=v_list, tuple=v_tuple, len=v_len, range=v_range,
                 enumerate=v_enumerate, zip=L.vzip, sum=v_sum, min=_fold(None, M.NP['min'], 'min'), max=_fold(None, M.NP['max'], 'max'),
                 any=v_anyall('any'), all=v_anyall('all'), hasattr=v_hasattr, sorted=v_sorted, map=v_map, print=lambda *a, **k: None,
                 open=L.open_, type=v_type, abs=v_abs, round=v_round, __import__=self.imp, pow=lambda a, b: a ** b)
        self.b = b

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            if name:
                return self.load(name)
            pk = types.SimpleNamespace()
            for f in fromlist or ():
                setattr(pk, f, self.load(f))
            return pk
        if name == PKG or name.startswith(PKG + '.'):
            return self.load(name[len(PKG) + 1:] or '__init__')
        if name in self.libs:
            m = self.libs[name]
            if not fromlist and '.' in name:
                return self.libs[name.split('.')[0]]
            if m is None:
                raise Unsupported('import ' + name)
            return m
        top = name.split('.')[0]
        if name.startswith('tensorflow'):
            raise Unsupported('tensorflow')
        raise Unsupported('import of ' + name)

    def load(self, mod):
        m = self.mods.get(mod)
        if m is not None:
            return m
        path = os.path.join(self.repo, PKG, *(mod.split('.'))) + '.py'
        code = World.trees.get(path)
        if code is None:
            with open(path) as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = Rewrite(mod).visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, path, 'exec')
            World.trees[path] = code
        m = types.ModuleType(PKG + '.' + mod)
        self.mods[mod] = m
        m.__dict__.update(__builtins__=self.b, vc__=self.vc, __package__=PKG)
        exec(code, m.__dict__)
        for (mm, n), v in self.overrides.items():
            if mm == mod and n in m.__dict__:
                m.__dict__[n] = v
        return m


DEFAULT_ENV = {
    'pyanen_ens_to_prob_method': 'moments', 'pyanen_kde_bandwidth': '0.01', 'pyanen_kde_kernel': 'gaussian', 'pyanen_kde_samples': '1000',
    'pyanen_kde_multiply_spread': '5', 'pyanen_boot_confidence': '0.95', 'pyanen_boot_repeats': '1000', 'pyanen_boot_samples': '300',
    'pyanen_tqdm_disable': 'True', 'pyanen_tqdm_leave': 'False', 'pyanen_tqdm_workers': '1', 'pyanen_tqdm_map_axis': '-1',
    'pyanen_tqdm_chunksize': '1', 'pyanen_use_tensorflow_math': 'False', 'pyanen_skip_nan': 'False', 'pyanen_split_crps_ensemble_along_0': 'False',
    'pyanen_integrate_range_multiplier': '5', 'pyanen_integrate_with_less_memory': 'False', 'pyanen_integrate_wdir': ''}
