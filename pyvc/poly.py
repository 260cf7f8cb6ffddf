"""Normal form of arithmetic terms: Laurent polynomials over canonical atoms, with canonical sums.

Sum_{0<=i<n} body(i) is normalised by linearity: monomials are split into the factor that does not
mention i and the factor that does; the latter becomes an uninterpreted application SUM_k(params),
where k is determined by the shape of the summand (alpha-equivalence), n, and params are the other
index variables in it.  Trusted: the linearity of finite sums, and that denominators are non-zero.
"""
from fractions import Fraction

import z3

from . import core

ATOM = {}          # id -> ast (keeps asts alive)
_occ = {}
_poly = {}
_keep = []
SUMS = {}          # key -> z3 function
SUMDEF = {}        # function name -> (D ast, bound var, params, n ast)
BV = z3.Const('__b', z3.IntSort())


def occurs(t, vid):
    k = (t.get_id(), vid)
    r = _occ.get(k)
    if r is None:
        if t.get_id() == vid:
            r = True
        elif z3.is_quantifier(t):
            r = occurs(t.body(), vid)
        else:
            r = any(occurs(c, vid) for c in t.children())
        _occ[k] = r
        _keep.append(t)
    return r


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mono_mul(m1, m2):
    d = dict(m1)
    for k, e in m2:
        d[k] = d.get(k, 0) + e
    out = []
    for k, e in d.items():
        if e and k in IND:
            e = 1
        if e:
            out.append((k, e))
    return tuple(sorted(out))


def fixup(m, c):
    """reduce sqrt(x)^2 -> x ; returns poly"""
    for k, e in m:
        if k in SQRT and (e >= 2 or e <= -2):
            rest = tuple((a, b) for a, b in m if a != k)
            q, r = divmod(abs(e), 2)
            base = ppow(SQRT[k], q)
            if e < 0:
                base = pinv(base)
                r = -r
            if r:
                rest = tuple(sorted(rest + ((k, r),)))
            return pmul({rest: c}, base)
    return {m: c}


def pmul(a, b):
    if len(a) * len(b) > 20000:
        raise core.Unsupported('polynomial too large')
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            for m, c in fixup(mono_mul(m1, m2), c1 * c2).items():
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    return r


def ppow(p, k):
    r = {(): Fraction(1)}
    for _ in range(k):
        r = pmul(r, p)
    return r


IND = set()
SQRT = {}
EXPARG = {}


def atom(t, exp=1):
    i = t.get_id()
    ATOM[i] = t
    return {((i, exp),): Fraction(1)}


def pinv(p):
    if not p:
        raise core.Unsupported('division by zero term')
    if len(p) == 1:
        (m, c), = p.items()
        if not any(k in IND for k, e in m):
            return {tuple((k, -e) for k, e in m): 1 / c}
    # factor out content: leading coefficient
    terms = sorted(((mono_key(m), m) for m in p))
    lead = p[terms[0][1]]
    q = {m: c / lead for m, c in p.items()}
    e = build(q)
    a = atom(1 / core.real(e))
    return {m: c / lead for m, c in a.items()}


_mk = {}


def mono_key(m):
    k = _mk.get(m)
    if k is None:
        k = '*'.join(sorted('%s^%d' % (ATOM[a].sexpr(), e) for a, e in m))
        _mk[m] = k
    return k


def build_mono(m, c, want_int):
    num = []
    den = []
    for a, e in sorted(m, key=lambda ae: ATOM[ae[0]].sexpr()):
        t = ATOM[a]
        for _ in range(abs(e)):
            (num if e > 0 else den).append(t)
    if want_int:
        r = None
        for t in num:
            r = t if r is None else r * t
        ci = z3.IntVal(int(c))
        if r is None:
            return ci
        return r if c == 1 else ci * r
    r = None
    for t in num:
        t = core.real(t)
        r = t if r is None else r * t
    if r is None:
        r = z3.RealVal(c)
    elif c != 1:
        r = z3.RealVal(c) * r
    for t in den:
        r = r / core.real(t)
    return r


def build(p):
    """canonical term for a polynomial"""
    want_int = all(c.denominator == 1 for c in p.values()) and all(
        e > 0 and ATOM[a].sort() == z3.IntSort() for m in p for a, e in m)
    if not p:
        return z3.IntVal(0)
    r = None
    for _, m in sorted((mono_key(m), m) for m in p):
        t = build_mono(m, p[m], want_int)
        r = t if r is None else r + t
    return r


def ind(c):
    """indicator polynomial of a boolean term"""
    if z3.is_true(c):
        return {(): Fraction(1)}
    if z3.is_false(c):
        return {}
    one = {(): Fraction(1)}
    if z3.is_not(c):
        return padd(one, ind(c.arg(0)), -1)
    if z3.is_and(c):
        r = one
        for x in c.children():
            r = pmul(r, ind(x))
        return r
    if z3.is_or(c):
        r = one
        for x in c.children():
            r = pmul(r, padd(one, ind(x), -1))
        return padd(one, r, -1)
    k = c.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        a, b = c.arg(0), c.arg(1)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_LT):   # a<b : b-a>0 ; a>=b : not (b-a>0)
            d = padd(poly(b), poly(a), -1)
            neg = k == z3.Z3_OP_GE
        else:
            d = padd(poly(a), poly(b), -1)    # a>b : a-b>0 ; a<=b: not
            neg = k == z3.Z3_OP_LE
        if not d or set(d) == {()}:
            v = bool(d) and d[()] > 0
            base = one if v else {}
        else:
            # integer: d>0 and 1-d>0 are complementary -> choose canonical
            e = build(d)
            if e.sort() == z3.IntSort():
                d2 = padd(one, d, -1)
                e2 = build(d2)
                if e2.sexpr() < e.sexpr():
                    base = padd(one, indatom(e2 > 0), -1)
                else:
                    base = indatom(e > 0)
            else:
                # scale leading coeff to +-1
                terms = sorted((mono_key(m), m) for m in d)
                lead = abs(d[terms[0][1]])
                e = build({m: cc / lead for m, cc in d.items()})
                base = indatom(core.real(e) > 0)
        return padd(one, base, -1) if neg else base
    if k == z3.Z3_OP_EQ and not z3.is_bool(c.arg(0)) and isinstance(c.arg(0), z3.ArithRef):
        d = padd(poly(c.arg(0)), poly(c.arg(1)), -1)
        if not d:
            return one
        if set(d) == {()}:
            return {}
        terms = sorted((mono_key(m), m) for m in d)
        lead = d[terms[0][1]]
        return indatom(build({m: cc / lead for m, cc in d.items()}) == 0)
    if k == z3.Z3_OP_DISTINCT and c.num_args() == 2:
        return padd(one, ind(c.arg(0) == c.arg(1)), -1)
    return indatom(normb(c))


def indatom(c):
    t = z3.If(c, z3.IntVal(1), z3.IntVal(0))
    r = atom(t)
    IND.add(t.get_id())
    return r


def normb(c):
    if z3.is_app(c) and c.num_args() and c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return c.decl()(*[norm(a) for a in c.children()])
    return c


def norm(t):
    """canonical form of a term (arith: polynomial; otherwise structural)"""
    if isinstance(t, z3.ArithRef):
        r = build(poly(t))
        if t.sort() == z3.RealSort():
            r = core.real(r)
        elif r.sort() == z3.RealSort():
            return t
        return r
    if z3.is_bool(t):
        return normb(t)
    return t


def poly(t):
    i = t.get_id()
    r = _poly.get(i)
    if r is None:
        r = _poly_(t)
        _poly[i] = r
        _keep.append(t)
    return r


def _poly_(t):
    if z3.is_bool(t):
        return ind(t)
    if z3.is_int_value(t):
        v = t.as_long()
        return {(): Fraction(v)} if v else {}
    if z3.is_rational_value(t):
        v = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return {(): v} if v else {}
    if not z3.is_app(t):
        return atom(t)
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = padd(r, poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = poly(ch[0])
        for c in ch[1:]:
            r = padd(r, poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, poly(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = poly(ch[0])
        for c in ch[1:]:
            r = pmul(r, poly(c))
        return r
    if k == z3.Z3_OP_DIV:
        return pmul(poly(ch[0]), pinv(poly(ch[1])))
    if k == z3.Z3_OP_TO_REAL:
        return poly(ch[0])
    if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
        return ppow(poly(ch[0]), ch[1].as_long())
    if k == z3.Z3_OP_ITE:
        c = ind(ch[0])
        a, b = poly(ch[1]), poly(ch[2])
        return padd(b, pmul(c, padd(a, b, -1)))
    if k == z3.Z3_OP_UNINTERPRETED:
        name = t.decl().name()
        if name == 'f_exp':
            r = {(): Fraction(1)}
            for m, c in poly(ch[0]).items():
                q = {m: Fraction(1, c.denominator)}
                a = t.decl()(core.real(build(q)))
                ATOM[a.get_id()] = a
                r = pmul(r, {((a.get_id(), c.numerator),): Fraction(1)})
            return r
        if name == 'f_sqrt':
            p = poly(ch[0])
            a = t.decl()(core.real(build(p)))
            SQRT[a.get_id()] = p
            return atom(a)
        if ch:
            args = [norm(c) for c in ch]
            if name in SUMDEF and core.cur() is not None:
                ctx = core.cur()
                # back to the definition: the canonical form of that sum for these parameters
                D, pl, n, _ = SUMDEF[name]
                sub = list(zip(pl, args))
                D2, n2 = z3.substitute(D, *sub), z3.substitute(n, *sub)
                return sum_poly(n2, lambda i: z3.substitute(D2, (BV, i)))[0]
            return atom(t.decl()(*sym_args(name, args)))
        return atom(t)
    if ch:
        try:
            return atom(t.decl()(*[norm(c) for c in ch]))
        except z3.Z3Exception:
            return atom(t)
    return atom(t)


def free_index_vars(t, ctx, acc):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.get_id() in ctx.index_vars:
            if x.get_id() not in [a.get_id() for a in acc]:
                acc.append(x)
        st.extend(reversed(x.children()))
    return acc


def sum_poly(n, bodyfn):
    ctx = core.cur()
    n = z3.simplify(n)
    if z3.is_int_value(n):
        r = {}
        sort = z3.IntSort()
        for j in range(n.as_long()):
            b = core.numeric(bodyfn(z3.IntVal(j)))
            if b.sort() == z3.RealSort():
                sort = b.sort()
            r = padd(r, poly(b))
        return r, sort
    i = ctx.index('s')
    body = core.numeric(bodyfn(i))
    p = poly(body)
    res = {}
    for m, c in p.items():
        dep = tuple((a, e) for a, e in m if occurs(ATOM[a], i.get_id()))
        rest = tuple((a, e) for a, e in m if not occurs(ATOM[a], i.get_id()))
        if not dep:
            q = pmul({rest: c}, poly(n))
        else:
            q = pmul({rest: c}, sum_atom(n, dep, i, ctx))
        res = padd(res, q)
    return res, body.sort()


def make_sum(n, bodyfn):
    """Sum_{0<=i<n} bodyfn(i);  n: z3 int term"""
    n = z3.simplify(n)
    if z3.is_int_value(n):
        r = None
        for j in range(n.as_long()):
            b = core.numeric(bodyfn(z3.IntVal(j)))
            r = b if r is None else core.add(r, b)
        return r if r is not None else z3.IntVal(0)
    res, sort = sum_poly(n, bodyfn)
    r = build(res)
    return core.real(r) if sort == z3.RealSort() else r


def index_terms(t, bid, ctx, acc):
    """maximal integer subterms of t that mention index variables but not the bound variable"""
    if z3.is_quantifier(t):
        return
    if t.sort() == z3.IntSort() and not occurs(t, bid):
        if free_index_vars(t, ctx, []) and not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args()):
            if not any(x.eq(t) for x in acc):
                acc.append(t)
            return
    for c in t.children():
        index_terms(c, bid, ctx, acc)


def sum_atom(n, dep, i, ctx):
    n = norm(n)
    D = build({dep: Fraction(1)})
    params = []
    index_terms(D, i.get_id(), ctx, params)
    index_terms(n, i.get_id(), ctx, params)
    # canonical order of params: by the shape of D with the parameter marked
    if len(params) > 1:
        def mark(v):
            others = [(w, z3.Const('__o', z3.IntSort())) for w in params if not w.eq(v)]
            return z3.substitute(D, (v, z3.Const('__v', z3.IntSort())), (i, BV), *others).sexpr()
        params.sort(key=mark)
    pl = [z3.Const('__p%d' % k, z3.IntSort()) for k in range(len(params))]
    sub = [(i, BV)] + list(zip(params, pl))
    # rebuild the product so that its order does not depend on the names
    parts = []
    for a, e in dep:
        parts.append((z3.substitute(ATOM[a], *sub), e))
    parts.sort(key=lambda ae: (ae[0].sexpr(), ae[1]))
    key = '%s|%s' % (z3.substitute(n, *sub).sexpr(), ';'.join('%s^%d' % (a.sexpr(), e) for a, e in parts))
    want_int = D.sort() == z3.IntSort()
    if key not in SUMS:
        name = 'SUM%d' % len(SUMS)
        f = z3.Function(name, *([z3.IntSort()] * len(params) + [z3.IntSort() if want_int else z3.RealSort()]))
        SUMS[key] = f
        SUMDEF[name] = (z3.substitute(D, *sub), pl, z3.substitute(n, *sub), key)
        # symmetric parameters: swapping them gives the same summand
        groups = []
        for x in range(len(pl)):
            for y in range(x):
                sw = [(pl[x], pl[y]), (pl[y], pl[x])]
                p2 = sorted((z3.substitute(a, *sw).sexpr(), e) for a, e in parts)
                if p2 == [(a.sexpr(), e) for a, e in parts] and z3.substitute(SUMDEF[name][2], *sw).eq(SUMDEF[name][2]):
                    for g in groups:
                        if y in g or x in g:
                            g.update((x, y))
                            break
                    else:
                        groups.append({x, y})
        if groups:
            SYMM[name] = [sorted(g) for g in groups]
    f = SUMS[key]
    return atom(f(*sym_args(f.name(), params)) if params else f())


SYMM = {}


def sym_args(name, args):
    args = list(args)
    for g in SYMM.get(name, ()):
        vals = sorted((args[k] for k in g), key=lambda a: a.sexpr())
        for k, v in zip(g, vals):
            args[k] = v
    return args


def has_abstract(t):
    """does the term contain uninterpreted abstractions (sums, roots, library results)?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if nm.startswith('SUM') or nm.startswith('f_') or nm.startswith('lib_'):
                return True
        st.extend(x.children())
    return False
