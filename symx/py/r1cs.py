"""The recorded constraint system as formulas over an arbitrary (possibly forged) assignment.

Every variable is an integer unknown in [0, p).  A constraint A*B = C becomes
  - nothing more than a 0/1 range when it is a booleanity constraint,
  - L in {0,1} when it has the form L*(1-L) = 0,
  - a disjunction of linear congruences when C = 0,
  - a linear congruence when A or B is constant,
  - otherwise a congruence over products of unknowns (plus its linear consequences when a factor
    is 0 or 1); constraints sharing products are first row-reduced modulo p, which preserves the
    set of solutions.
Ranges are propagated through unit-coefficient congruences so that most congruences become
integer equalities."""
import terms as T
from terms import FP, Poly


def lc_poly(lc, val):
    r = 0
    for v, c in lc:
        if c.__class__ is Poly:
            raise T.Unsupported('constraint coefficient depends on the witness')
        x = val(v)
        r = T.add(r, T.scale(x, T.sym_c(c)) if x.__class__ is Poly else x * T.sym_c(c))
    return r if r.__class__ is Poly else T.sym_c(r)


def norm(lc):
    """{var: coef mod p} without zeros"""
    d = {}
    for v, c in lc:
        if c.__class__ is Poly:
            raise T.Unsupported('constraint coefficient depends on the witness')
        d[v] = (d.get(v, 0) + c) % FP
    return {v: c for v, c in d.items() if c}


def ratio(a, b):
    """k with a = k*b, or None"""
    if set(a) != set(b):
        return None
    k = None
    for v, c in a.items():
        q = c * pow(b[v], FP - 2, FP) % FP
        if k is None:
            k = q
        elif k != q:
            return None
    return k


def is_const(d):
    return all(v == 0 for v in d)


def presolve(cons, known):
    """variables that the constraints fix once the known constants are put in: by an equation for one variable, or
    by one for the binary digits of a constant"""
    val = {v: t % FP for v, t in known.items() if t.__class__ is not Poly}
    if not val:
        return cons, known

    def put(d):
        if not any(v in val for v in d):
            return d
        r = {}
        for v, c in d.items():
            v, c = (0, c * val[v]) if v in val else (v, c)
            r[v] = (r.get(v, 0) + c) % FP
        return {v: c for v, c in r.items() if c}
    bits = set()
    for A, B_, C in cons:
        if not C and len(A) and set(A) == set(B_) or not C and set(A) ^ set(B_) == {0}:
            vs = (set(A) | set(B_)) - {0}
            if len(vs) == 1:
                v, = vs
                if {-A.get(0, 0) * pow(A[v], FP - 2, FP) % FP, -B_.get(0, 0) * pow(B_[v], FP - 2, FP) % FP} == {0, 1}:
                    bits.add(v)
    todo = True
    while todo:
        todo = False
        cons = [(put(a), put(b), put(c)) for a, b, c in cons]
        for A, B_, C in cons:
            if A and B_ and not is_const(A) and not is_const(B_):
                continue
            L = {v: -c % FP for v, c in C.items()}
            if A and B_:
                k, D = (A[0], B_) if is_const(A) else (B_[0], A)
                for v, c in D.items():
                    L[v] = (L.get(v, 0) + k * c) % FP
            L = {v: c for v, c in L.items() if c}
            vs = [v for v in L if v]
            if not vs or any(v in val for v in vs):
                continue
            if len(vs) == 1:
                val[vs[0]] = -L.get(0, 0) * pow(L[vs[0]], FP - 2, FP) % FP
                todo = True
            elif len(vs) < 250 and all(v in bits for v in vs):
                k = min(min(L[v], FP - L[v]) for v in vs)
                for sg in (k, FP - k):
                    q = pow(sg, FP - 2, FP)
                    w = {L[v] * q % FP: v for v in vs}
                    t = -L.get(0, 0) * q % FP
                    if len(w) == len(vs) and all(x & (x - 1) == 0 for x in w) and max(w) < 1 << 252:
                        if t < 1 << 253 and all(1 << i in w for i in range(t.bit_length()) if t >> i & 1):
                            for x, v in w.items():
                                val[v] = int(t & x != 0)
                            todo = True
                        break
    # what the constraints say about the inputs stays a constraint
    cons = cons + [({v: 1, 0: -x % FP} if x else {v: 1}, {0: 1}, {}) for v, x in val.items() if known.get(v).__class__ is Poly]
    known = dict(known)
    for v, x in val.items():
        known.setdefault(v, x)
    return cons, known


class System:
    count = 0

    def __init__(s, cons, nvars, known, keep=()):
        """cons: [(A,B,C)]; known: {var: term with ranges} for the circuit inputs of the harness"""
        # a variable has one range: the unknowns of different systems have different names
        s.tag = f'_{System.count}' if System.count else ''
        System.count += 1
        s.known = known
        s.lo = {}
        s.hi = {}
        s.cons, s.known = presolve([(norm(a), norm(b), norm(c)) for a, b, c in cons], known)
        known = s.known
        s.vars = set(nvars)
        for A, B_, C in s.cons:
            for d in (A, B_, C):
                s.vars.update(d)
        s.vars.discard(0)
        for v in s.vars:
            k = known.get(v)
            if k is not None:
                s.lo[v], s.hi[v] = T.rng(k)
            else:
                s.lo[v], s.hi[v] = 0, FP - 1
        s.nt = 0
        s.defs = {}           # what a fresh unknown stands for
        s.extra = {}          # fresh 0/1 unknowns: negative ids
        s.linear = []         # dicts: sum == 0 (mod p)
        s.disj = []           # lists of dicts
        s.general = []        # (A, B, C)
        s.classify()
        s.reduce_linear()
        s.reduce_products()
        s.term_cache = {}
        s.fold_bits(set(keep))
        s.digits = {}
        s.propagate()
        for _ in range(4):
            if not s.find_digits():
                break
            s.propagate()

    def reduce_linear(s):
        """several equations over the same unknowns (a polynomial given by its values at some points): solved for
        the later ones"""
        groups = {}
        for i, L in enumerate(s.linear):
            groups.setdefault(frozenset(L) - {0}, []).append(i)
        drop = set()
        for vs, g in groups.items():
            if len(g) < 2:
                continue
            M = [dict(s.linear[i]) for i in g]
            used = set()
            for col in sorted(vs, reverse=True):
                piv = next((i for i in range(len(M)) if i not in used and col in M[i]), None)
                if piv is None:
                    continue
                used.add(piv)
                inv = pow(M[piv][col], FP - 2, FP)
                M[piv] = {k: c * inv % FP for k, c in M[piv].items()}
                for j in range(len(M)):
                    if j != piv and col in M[j]:
                        f = M[j][col]
                        for k, c in M[piv].items():
                            x = (M[j].get(k, 0) - f * c) % FP
                            if x:
                                M[j][k] = x
                            else:
                                M[j].pop(k, None)
            for i, L in zip(g, M):
                s.linear[i] = L
                if not L:
                    drop.add(i)
        s.linear = [L for i, L in enumerate(s.linear) if i not in drop]

    def fresh_bit(s):
        s.nt += 1
        v = -s.nt
        s.lo[v], s.hi[v] = 0, 1
        return v

    def classify(s):
        for A, B_, C in s.cons:
            if not A or not B_:
                if C:
                    s.linear.append(C)
                continue
            if is_const(A) or is_const(B_):
                k = (A if is_const(A) else B_)[0]
                D = B_ if is_const(A) else A
                L = {v: c * k % FP for v, c in D.items()}
                for v, c in C.items():
                    L[v] = (L.get(v, 0) - c) % FP
                L = {v: c for v, c in L.items() if c}
                if L:
                    s.linear.append(L)
                continue
            if C:
                # (A - k) * B = 0 when C = k*B, and symmetrically
                for X, Y in ((A, B_), (B_, A)):
                    k = ratio(C, Y)
                    if k is not None:
                        X = dict(X)
                        X[0] = (X.get(0, 0) - k) % FP
                        A, B_, C = {v: c for v, c in X.items() if c}, Y, {}
                        break
            if not A:
                continue
            if not C:
                # roots of a single unknown
                va = [v for v in A if v]
                vb = [v for v in B_ if v]
                if len(va) == 1 and va == vb:
                    x = va[0]
                    r = {-A.get(0, 0) * pow(A[x], FP - 2, FP) % FP, -B_.get(0, 0) * pow(B_[x], FP - 2, FP) % FP}
                    if r == {0, 1}:
                        s.lo[x] = max(s.lo[x], 0)
                        s.hi[x] = min(s.hi[x], 1)
                        continue
                # L * (1 - L) = 0, up to a constant factor
                sm = dict(A)
                for v, c in B_.items():
                    sm[v] = (sm.get(v, 0) + c) % FP
                sm = {v: c for v, c in sm.items() if c}
                if not is_const(sm) or sm.get(0) != 1:
                    # L * (L - 1) = 0 is the same condition
                    sm = dict(A)
                    for v, c in B_.items():
                        sm[v] = (sm.get(v, 0) - c) % FP
                    sm = {v: c for v, c in sm.items() if c}
                    if is_const(sm) and sm.get(0) in (1, FP - 1):
                        if sm[0] == FP - 1:
                            A, B_ = B_, A
                        B_ = {v: (-c) % FP for v, c in B_.items()}
                        # now A = L, B = 1 - L
                        sm = {0: 1}
                if is_const(sm) and sm.get(0) == 1:
                    t = s.fresh_bit()
                    s.defs[t] = dict(A)
                    L = dict(A)
                    L[t] = FP - 1
                    s.linear.append(L)
                    s.extra[t] = True
                    continue
                s.disj.append([A, B_])
                continue
            s.general.append((A, B_, C))

    # products of unknowns ---------------------------------------
    def expand(s, A, B_, C):
        m = {}
        for u, a in A.items():
            for v, b in B_.items():
                k = tuple(sorted(x for x in (u, v) if x))
                m[k] = (m.get(k, 0) + a * b) % FP
        for v, c in C.items():
            k = (v,) if v else ()
            m[k] = (m.get(k, 0) - c) % FP
        return {k: c for k, c in m.items() if c}

    def reduce_products(s):
        rows = [s.expand(*g) for g in s.general]
        # connected components through shared quadratic monomials
        owner = {}
        comp = list(range(len(rows)))

        def find(i):
            while comp[i] != i:
                comp[i] = comp[comp[i]]
                i = comp[i]
            return i
        for i, r in enumerate(rows):
            if any(s.is_bit(d) for d in s.general[i][:2]):
                continue
            for k in r:
                if len(k) == 2:
                    j = owner.setdefault(k, i)
                    comp[find(i)] = find(j)
        groups = {}
        for i in range(len(rows)):
            groups.setdefault(find(i), []).append(i)
        s.products = []
        for g in groups.values():
            if len(g) == 1:
                s.products.append((rows[g[0]], s.general[g[0]]))
                continue
            M = [dict(rows[i]) for i in g]
            # eliminate linear unknowns of the C side first
            cand = []
            for i in g:
                for v in s.general[i][2]:
                    if v and (v,) not in cand:
                        cand.append((v,))
            used = set()
            for col in cand:
                piv = next((i for i in range(len(M)) if i not in used and col in M[i]), None)
                if piv is None:
                    continue
                used.add(piv)
                inv = pow(M[piv][col], FP - 2, FP)
                M[piv] = {k: c * inv % FP for k, c in M[piv].items()}
                for j in range(len(M)):
                    if j != piv and col in M[j]:
                        f = M[j][col]
                        R = M[j]
                        for k, c in M[piv].items():
                            x = (R.get(k, 0) - f * c) % FP
                            if x:
                                R[k] = x
                            else:
                                R.pop(k, None)
            for r in M:
                if r:
                    s.products.append((r, None))
            for i in g:
                s.products.append((None, s.general[i]))

    # range checks ------------------------------------------------
    def fold_bits(s, keep):
        """0/1 unknowns that occur in linear rows only, in each with coefficients c, 2c, 4c ..., are the
        digits of one unknown: the rows get that unknown, the bits become slices of it"""
        other = set()
        prof = {}
        for i, L in enumerate(s.linear):
            for v, c in L.items():
                if v and s.lo[v] == 0 and s.hi[v] == 1:
                    prof.setdefault(v, []).append((i, c))
        for D in s.disj:
            for d in D:
                other.update(d)
        for row, abc in s.products:
            for k in row or ():
                other.update(k)
            for d in abc or ():
                other.update(d)
        s.folded = {}
        half = pow(2, FP - 2, FP)
        by = {}
        for v, p in prof.items():
            if v not in other and v not in keep and v not in s.known:
                by.setdefault(tuple(p), v)
        for p in list(by):
            if p not in by or tuple((i, c * half % FP) for i, c in p) in by:
                continue
            ch = []
            x = p
            while x in by:
                ch.append(by.pop(x))
                x = tuple((i, c * 2 % FP) for i, c in x)
            if len(ch) < 4:
                continue
            u = s.fresh_bit()
            s.hi[u] = (1 << len(ch)) - 1
            s.defs[u] = {v: 1 << i for i, v in enumerate(ch)}
            for i, v in enumerate(ch):
                for j, _ in p:
                    del s.linear[j][v]
                s.folded[v] = (u, i)
            for j, c in p:
                s.linear[j][u] = c

    # digits ------------------------------------------------------
    def find_digits(s):
        """v = w0 + 2^n w1 + ... over the integers, with each w below the next power of two: the w are slices of v"""
        new = False
        for L in s.linear:
            if len(L) < 2 or len(L) > 40 or 0 in L:
                continue
            cs = sorted((abs(T.sym_c(c)), v) for v, c in L.items())
            vs = sorted((v for v in L), key=lambda v: (v not in s.known, v))
            for v in vs:
                c = T.sym_c(L[v])
                if c not in (1, -1) or v in s.digits or v in s.folded or s.lo[v] < 0:
                    continue
                ws = [(a, w) for a, w in cs if w != v]
                plan = []
                for k, (a, w) in enumerate(ws):
                    x = T.sym_c(L[w])
                    if x * c >= 0 or a & (a - 1) or s.lo[w] < 0 or w in s.known or w in s.digits or w in s.folded or s.reaches(v, w):
                        break
                    o = a.bit_length() - 1
                    n = T.blen(s.hi[w])
                    if k + 1 < len(ws):
                        gap = ws[k + 1][0].bit_length() - 1 - o
                        if n > gap:
                            break
                        n = gap
                    if k == 0 and o:
                        break
                    plan.append((w, o, n))
                else:
                    if plan and (len(plan) == 1 or plan[-1][1] + plan[-1][2] < FP.bit_length()):
                        for w, o, n in plan:
                            s.digits[w] = (v, o, n)
                            if len(plan) == 1:
                                s.hi[v] = min(s.hi[v], s.hi[w])
                                s.lo[v] = max(s.lo[v], s.lo[w])
                            s.hi[w] = min(s.hi[w], s.hi[v] >> o)
                        new = True
                        break
        return new

    def reaches(s, v, w):
        while v in s.digits:
            v = s.digits[v][0]
            if v == w:
                return True
        return v == w

    # ranges ------------------------------------------------------
    def crange(s, d):
        lo = hi = 0
        for v, c in d.items():
            c = T.sym_c(c)
            if v == 0:
                lo += c; hi += c
            elif c > 0:
                lo += c * s.lo[v]; hi += c * s.hi[v]
            else:
                lo += c * s.hi[v]; hi += c * s.lo[v]
        return lo, hi

    def propagate(s):
        # scale each row so that some coefficient is 1 and the spread is smallest
        s.linear = [s.best_scale(L) for L in s.linear]
        occ = {}
        for i, L in enumerate(s.linear):
            for v in L:
                if v:
                    occ.setdefault(v, []).append(i)
        work = list(range(len(s.linear)))
        queued = set(work)
        rounds = 0
        while rounds < 200000:
            if not work:
                # products with a factor that is 0 or 1
                for row, abc in s.products:
                    v = s.bit_product(abc) if abc is not None else None
                    if v is not None:
                        work += [j for j in occ.get(v, ()) if j not in queued]
                        queued.update(work)
                if not work:
                    break
            i = work.pop(0)
            queued.discard(i)
            L = s.linear[i]
            rounds += 1
            slo, shi = s.crange(L)
            for v, c in L.items():
                if v == 0:
                    continue
                c = T.sym_c(c)
                if c not in (1, -1):
                    continue
                # c*v + rest = 0 (mod p)
                if c == 1:
                    rlo, rhi = slo - s.lo[v], shi - s.hi[v]
                    xlo, xhi = -rhi, -rlo
                else:
                    rlo, rhi = slo + s.hi[v], shi + s.lo[v]
                    xlo, xhi = rlo, rhi
                # v = x + k p with v in [lo,hi]
                if xlo < 0 and xhi - xlo < FP >> 2 and v not in s.known and v not in s.digits and v not in s.folded \
                        and s.lo[v] == 0 and s.hi[v] == FP - 1:
                    # a representative around zero
                    s.lo[v], s.hi[v] = xlo, xhi
                    slo, shi = s.crange(L)
                    for j in occ[v]:
                        if j not in queued:
                            queued.add(j)
                            work.append(j)
                    continue
                k0 = -(-(s.lo[v] - xhi) // FP)
                k1 = (s.hi[v] - xlo) // FP
                if k0 > k1:
                    # no solution: leave it to the solver
                    continue
                nlo = max(s.lo[v], xlo + k0 * FP)
                nhi = min(s.hi[v], xhi + k1 * FP)
                if nlo > nhi:
                    continue
                if nlo > s.lo[v] or nhi < s.hi[v]:
                    s.lo[v], s.hi[v] = nlo, nhi
                    slo, shi = s.crange(L)
                    for j in occ[v]:
                        if j not in queued:
                            queued.add(j)
                            work.append(j)

    def sym(s, d):
        return {v: T.sym_c(c) for v, c in d.items()}

    def is_bit(s, d):
        lo, hi = s.crange(d)
        return 0 <= lo and hi <= 1

    def bit_product(s, abc):
        """range of w in A*B = w when A is 0 or 1"""
        A, B_, C = abc
        for X, Y in ((A, B_), (B_, A)):
            if not s.is_bit(X):
                continue
            for w, c in C.items():
                if w == 0 or c not in (1, FP - 1) or w in s.known or w in s.digits or w in s.folded or s.lo[w] != 0 or s.hi[w] != FP - 1 or w in Y:
                    continue
                # w = -R or w = Y - R, up to the sign c
                R = {v: x for v, x in C.items() if v != w}
                l0, h0 = s.crange({v: -x for v, x in R.items()})
                d = dict(Y)
                for v, x in R.items():
                    d[v] = (d.get(v, 0) - x) % FP
                l1, h1 = s.crange({v: x for v, x in d.items() if x})
                lo, hi = min(l0, l1), max(h0, h1)
                if hi - lo < FP >> 2:
                    s.lo[w], s.hi[w] = (lo, hi) if c == 1 else (-hi, -lo)
                    return w
        return None

    def best_scale(s, L):
        best = None
        cs = {c for v, c in L.items() if v}
        if any(T.sym_c(c) in (1, -1) for c in cs) and all(abs(T.sym_c(c)) < FP >> 4 for c in cs):
            return L
        if len(cs) > 60:
            cs = sorted(cs)[:60]
        for c in list(cs):
            inv = pow(c, FP - 2, FP)
            d = {v: x * inv % FP for v, x in L.items()}
            lo, hi = s.crange(d)
            if best is None or hi - lo < best[0]:
                best = (hi - lo, d)
        lo, hi = s.crange(L)
        return best[1] if best and best[0] < hi - lo else L

    # terms -------------------------------------------------------
    def term(s, v):
        if v == 0:
            return 1
        t = s.term_cache.get(v)
        if t is None:
            k = s.known.get(v)
            if k is not None:
                t = k
            elif v in s.folded:
                u, i = s.folded[v]
                t = T.slice_(s.term(u), i, 1)
            elif s.lo[v] == s.hi[v]:
                t = s.lo[v]
            elif v in s.digits:
                u, o, n = s.digits[v]
                t = T.slice_(s.term(u), o, n)
            else:
                t = T.var(s.name(v), s.lo[v], s.hi[v])
            s.term_cache[v] = t
        return t

    def name(s, v):
        return (f'w{v}' if v > 0 else f'u{-v}') + s.tag

    def lin(s, d):
        r = 0
        for v, c in d.items():
            r = T.add(r, T.scale(s.term(v), T.sym_c(c)))
        return r

    def accepts(s, vals, env):
        """do the formulas hold under the concrete assignment vals (env: the input variables)?"""
        env = dict(env)
        w = dict(vals)
        w[0] = 1
        for u, d in s.defs.items():
            w[u] = sum(c * w[v] for v, c in d.items()) % FP
        for v in list(s.vars) + list(s.defs):
            t = s.term(v)
            if v in s.known or v in s.folded or v in s.digits:
                continue
            x = s.lo[v] + (w[v] - s.lo[v]) % FP
            if x > s.hi[v]:
                return False
            if t.__class__ is Poly:
                env[s.name(v)] = x
        fs = s.formulas()
        if not all(T.evaluate(fs, env)):
            return False
        # the terms must stand for the values
        vs = [v for v in s.vars if v]
        return all((x - w[v]) % FP == 0 for v, x in zip(vs, T.evaluate([s.term(v) for v in vs], env)))

    def formulas(s):
        """boolean terms whose conjunction is equivalent to the constraint system"""
        out = []
        for L in s.linear:
            out.append(zero_mod(s.lin(L)))
        for w in s.digits:
            t = s.term(w)
            l, h = T.rng(t)
            if l < s.lo[w]:
                out.append(T.le(s.lo[w], t))
            if h > s.hi[w]:
                out.append(T.le(t, s.hi[w]))
        for D in s.disj:
            out.append(T.bor(*[zero_mod(s.lin(d)) for d in D]))
        for row, abc in s.products:
            bit = None
            if abc is not None and row is not None:
                bit = next((i for i in (0, 1) if s.is_bit(abc[i])), None)
            if row is not None and bit is None:
                r = 0
                for k, c in row.items():
                    t = T.sym_c(c)
                    for v in k:
                        t = T.mul(t, s.term(v)) if t.__class__ is Poly else T.scale(s.term(v), t)
                    r = T.add(r, t)
                out.append(zero_mod(r))
            if abc is not None:
                A, B_, C = abc
                a, b, c = s.lin(A), s.lin(B_), s.lin(C)
                for i, (x, y) in enumerate(((a, b), (b, a))):
                    if bit is not None and i != bit:
                        continue
                    out.append(T.implies(zero_mod(x), zero_mod(c)))
                    if bit is not None or len(A) + len(B_) + len(C) < 40:
                        out.append(T.implies(zero_mod(T.sub(x, 1)), zero_mod(T.sub(y, c))))
        # bounds that propagation derived for the harness inputs
        for v, k in s.known.items():
            if v in s.lo and k.__class__ is Poly:
                l, h = T.rng(k)
                if s.lo[v] > l:
                    out.append(T.le(s.lo[v], k))
                if s.hi[v] < h:
                    out.append(T.le(k, s.hi[v]))
        return out


def zero_mod(t):
    return T.f_eq(t, 0)


def holds(cons, w):
    """indices of the constraints violated by assignment w (var -> int)"""
    bad = []
    for i, (A, B_, C) in enumerate(cons):
        a = sum(c * w[v] for v, c in A)
        b = sum(c * w[v] for v, c in B_)
        c = sum(c * w[v] for v, c in C)
        if (a * b - c) % FP:
            bad.append(i)
    return bad


def complete(cons, fixed, guess, order):
    """extend the partial assignment `fixed` to one satisfying all constraints: unit propagation,
    guided by `guess` for the unknowns that stay free.  -> assignment or None"""
    w = dict(fixed)
    w[0] = 1
    C = [(norm(a), norm(b), norm(c)) for a, b, c in cons]
    occ = {}
    for i, t in enumerate(C):
        for d in t:
            for v in d:
                occ.setdefault(v, set()).add(i)
    work = list(range(len(C)))
    inq = set(work)

    def part(d):
        k = 0
        u = {}
        for v, c in d.items():
            if v in w:
                k += c * w[v]
            else:
                u[v] = c
        return k % FP, u

    def put(v, x):
        w[v] = x % FP
        for j in occ.get(v, ()):
            if j not in inq:
                inq.add(j)
                work.append(j)
    pos = 0
    while True:
        while work:
            i = work.pop()
            inq.discard(i)
            (ka, ua), (kb, ub), (kc, uc) = map(part, C[i])
            if not ua and ka == 0 or not ub and kb == 0:
                u, k = uc, kc
                if not u:
                    if k:
                        return None
                    continue
            elif not ua and not ub:
                u, k = dict(uc), (kc - ka * kb) % FP
            elif not ua or not ub:
                kk, (k2, u2) = (ka, (kb, ub)) if not ua else (kb, (ka, ua))
                u = {v: c * kk % FP for v, c in u2.items()}
                k = kk * k2
                for v, c in uc.items():
                    u[v] = (u.get(v, 0) - c) % FP
                k = (k - kc) % FP
                u = {v: c for v, c in u.items() if c}
            else:
                continue
            if not u:
                if k % FP:
                    return None
                continue
            if len(u) == 1:
                (v, c), = u.items()
                put(v, -k * pow(c, FP - 2, FP))
        while pos < len(order) and order[pos] in w:
            pos += 1
        if pos == len(order):
            break
        v = order[pos]
        put(v, guess.get(v, 0))
    return w if not holds(cons, w) else None
