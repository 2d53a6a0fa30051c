"""Terms to SMT-LIB (linear/nonlinear integer arithmetic) and the solver portfolio."""
import os
import re
import signal
import subprocess
import tempfile
import time
import terms as T
from terms import Poly, B, FP

SOLVERS = {
    'z3': ['z3-new', '-in'],
    'cvc5': ['cvc5', '--lang=smt2', '--produce-models'],
}


class Stats:
    def __init__(s):
        s.queries = 0
        s.unsat = 0
        s.sat = 0
        s.unknown = 0
        s.seconds = 0.0
        s.by = {}
        s.trivial = 0

    def merge(s, o):
        for k in ('queries', 'unsat', 'sat', 'unknown', 'seconds', 'trivial'):
            setattr(s, k, getattr(s, k) + getattr(o, k))
        for k, v in o.by.items():
            s.by[k] = s.by.get(k, 0) + v


STATS = Stats()


def factors(roots, out):
    """atoms that occur in a monomial of degree two or more"""
    st = list(roots)
    seen = set()
    while st:
        x = st.pop()
        if x.__class__ is T.Atom:
            x = x.poly
        if x.__class__ is Poly:
            if x.deg > 1:
                for k in x.m:
                    if len(k) > 1:
                        out.update(dict.fromkeys(k))
        elif x.__class__ is B and x.id not in seen:
            seen.add(x.id)
            st.extend(x.args)


def refine(conj, rounds=4):
    """cut overlapping slices of one term at each other's ends, so that sums of slices cancel"""
    for _ in range(rounds):
        cuts = {}
        atoms = collect(conj)
        for a in atoms:
            if a.kind == 'slice':
                V, lo, ln = a.args
                cuts.setdefault(V.id, []).append((lo, lo + ln))
        todo = {}
        for k, l in cuts.items():
            ends = sorted({x for ab in l for x in ab})
            if any(a < e < b for a, b in set(l) for e in ends):
                todo[k] = ends
        # a factor of a product that is also sliced: the product distributes over the slices
        prod = {}
        factors([x for a in atoms for x in a.args] + conj, prod)
        for i in prod:
            p = T.ATOMS[i].poly
            if T.ATOMS[i].kind == 'var' and p.id in cuts and p.lo == 0:
                todo[p.id] = sorted({x for ab in cuts[p.id] for x in ab} | {0, T.blen(p.hi)})
                todo['v', i] = p
        if not todo:
            break
        memo = {}
        T.MERGE = False
        try:
            conj = [deep_subst(c, {}, memo, cuts=todo) for c in conj]
        finally:
            T.MERGE = True
    return conj


def form(p):
    """p = c + g * f, f without a constant and of positive leading coefficient -> (f, g, c)"""
    from math import gcd
    m = sorted((k, c) for k, c in p.m.items() if k != ())
    g = 0
    for _, c in m:
        g = gcd(g, c)
    if m and m[0][1] < 0:
        g = -g
    return tuple((k, c // g) for k, c in m) if g else (), g, p.m.get((), 0)


def interval(p, iv):
    """bounds of p, given those of forms"""
    lo, hi = p.lo, p.hi
    f, g, c = form(p)
    if f in iv:
        a, b = iv[f]
        if g < 0:
            a, b = b, a
        if a is not None:
            lo = c + g * a if lo is None else max(lo, c + g * a)
        if b is not None:
            hi = c + g * b if hi is None else min(hi, c + g * b)
    return lo, hi


def by_interval(b, iv):
    if b.kind == 'not':
        r = by_interval(b.args[0], iv) if b.args[0].__class__ is B else b.args[0]
        return b if r is b.args[0] else T.bnot(r)
    if b.kind in ('le', 'eq', 'feq') and b.args[0].__class__ is Poly:
        lo, hi = interval(b.args[0], iv)
        if b.kind == 'le':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif lo is not None and hi is not None:
            if b.kind == 'eq' and (lo > 0 or hi < 0) or b.kind == 'feq' and (0 < lo and hi < FP or -FP < lo and hi < 0):
                return False
            if lo == 0 == hi:
                return True
    return b


def fold_divs(p, iv):
    """V * (A div V) = A - A mod V where V > 0"""
    ds = {}
    for k, c in p.m.items():
        if len(k) == 2:
            for i, j in (k, k[::-1]):
                a = T.ATOMS[i]
                if a.kind == 'div' and a.args[1].__class__ is Poly:
                    ds.setdefault(i, {})[(j,)] = c
    for i, m in ds.items():
        A, V = T.ATOMS[i].args
        k, c = next(iter(m.items()))
        if k not in V.m or c % V.m[k] or V.m.get((), 0):
            continue
        q = c // V.m[k]
        if {x: y * q for x, y in V.m.items()} != m or (interval(V, iv)[0] or 0) <= 0:
            continue
        p = T.add(T.sub(p, T.scale(T.mul(V, T.ATOMS[i].poly), q)), T.scale(T.sub(A, T.fmod(A, V)), q))
        if p.__class__ is not Poly:
            break
    return p


def context(facts, goals, rounds=6):
    """facts and goals simplified with what the facts say about the ranges of terms; also returns the variables that
    have been expressed by others: [(name, term)]"""
    back = []
    for rnd in range(rounds):
        flat = []
        for f in facts:
            if f.__class__ is B:
                flat += f.args if f.kind == 'and' else [f]
            elif not f:
                return [False], goals, back
        iv, known, atomic, other = {}, {}, [], []
        for f in flat:
            neg = f.kind == 'not' and f.args[0].__class__ is B
            x = f.args[0] if neg else f
            if x.kind in ('le', 'eq') and x.args[0].__class__ is Poly:
                fm, g, c = form(x.args[0])
                lo, hi = iv.get(fm, (None, None))
                up = lambda v: v if hi is None else min(v, hi)
                dn = lambda v: v if lo is None else max(v, lo)
                if x.kind == 'le' and not neg:          # c + g*f <= 0
                    if g > 0:
                        hi = up(-c // g)
                    else:
                        lo = dn((c - g - 1) // -g)
                elif x.kind == 'le':                    # c + g*f >= 1
                    if g > 0:
                        lo = dn((1 - c + g - 1) // g)
                    else:
                        hi = up((c - 1) // -g)
                elif not neg and c % g == 0:
                    lo = hi = -c // g
                elif neg and c == 0:
                    a, _ = T.rng(x.args[0])
                    if g > 0 and a == 0:
                        lo = dn(1)
                    elif g < 0 and T.rng(x.args[0])[1] == 0:
                        lo = dn(1)
                iv[fm] = (lo, hi)
                atomic.append(f)
            elif x.kind in ('bit', 'feq'):
                atomic.append(f)
            else:
                other.append(f)
                continue
            known[x.id] = not neg
        env = {}
        fresh = []
        used = set()
        for fm, (lo, hi) in iv.items():
            at = [T.ATOMS[k[0]] for k, _ in fm if len(k) == 1 and T.ATOMS[k[0]].kind == 'var']
            if len(at) != len(fm) or any(a.id in used for a in at):
                continue
            if len(fm) == 1 and fm[0][1] == 1:
                a, = at
                l, h = max(a.lo, lo if lo is not None else a.lo), min(a.hi, hi if hi is not None else a.hi)
                if l > h:
                    return [False], goals, back
                if (l, h) != (a.lo, a.hi) and (l == h or not a.args[0].startswith('$d')):
                    env[a.args[0]] = T.var(f'$n{a.id}.{l}.{h}', l, h) if l < h else l
                    used.add(a.id)
            elif len(fm) == 2 and {c for _, c in fm} == {1, -1} and lo is not None and hi is not None and lo < hi:
                x, y = at                                # y = x - d
                if abs(lo) > 1 << 64 or abs(hi) > 1 << 64:
                    continue
                l, h = (0, (1 << T.blen(hi)) - 1) if lo >= 0 else (lo, hi)
                d = T.var(f'$d{x.id}.{y.id}.{l}.{h}', l, h)
                t = T.sub(x.poly, d)
                env[y.args[0]] = t
                fresh += [T.le(y.lo, t), T.le(t, y.hi)]
                used |= {x.id, y.id}
        back += [(n, t) for n, t in env.items()]
        m1, m2 = {}, {}
        f2 = [deep_subst(f, env, m1) for f in atomic] + fresh
        if env:
            f2 += [deep_subst(f, env, m1) for f in other]
            goals = [deep_subst(g, env, m1) for g in goals]
        else:
            f2 += [deep_subst(f, {}, m2, known, None, iv) for f in other]
            goals = [deep_subst(g, {}, m2, known, None, iv) for g in goals]
        same = not env and len(f2) == len(facts) and all(a is b for a, b in zip(f2, facts))
        facts = f2
        if same:
            break
    return facts, goals, back


def deep_subst(t, env, memo=None, known=None, cuts=None, iv=None):
    """rebuild term t with variables (by name) replaced by the terms/ints in env"""
    if memo is None:
        memo = {}

    def st(t):
        if t.__class__ is Poly:
            key = ('p', t.id)
            r = memo.get(key)
            if r is None:
                mp = {}
                for k in t.m:
                    for i in k:
                        if i not in mp:
                            mp[i] = sa(T.ATOMS[i])
                mp = {i: v for i, v in mp.items() if not (v.__class__ is Poly and v is T.ATOMS[i].poly)}
                r = T.subst(t, mp) if mp else t
                if iv and r.__class__ is Poly:
                    r = fold_divs(r, iv)
                memo[key] = r
            return r
        if t.__class__ is B:
            key = ('b', t.id)
            r = memo.get(key)
            if r is None:
                r = known.get(t.id) if known else None
                if r is None:
                    r = sb(t)
                    if iv and r.__class__ is B:
                        r = by_interval(r, iv)
                memo[key] = r
            return r
        return t

    def sa(a):
        key = ('a', a.id)
        r = memo.get(key)
        if r is None:
            r = _sa(a)
            memo[key] = r
        return r

    def _sa(a):
        k, x = a.kind, a.args
        if k == 'var':
            if cuts and ('v', a.id) in cuts:
                e = cuts[a.poly.id]
                r = 0
                for c, d in zip(e, e[1:]):
                    r = T.add(r, T.scale(T.slice_(a.poly, c, d - c), 1 << c))
                return r
            return env.get(x[0], a.poly)
        if k == 'slice' and cuts and x[0].__class__ is Poly and x[0].deg == 1:
            b, c1 = T.single(x[0])
            if b is not None and c1 == 1 and ('v', b.id) in cuts:
                lo, hi = x[1], x[1] + x[2]
                e = [lo] + [c for c in cuts[x[0].id] if lo < c < hi] + [hi]
                r = 0
                for c, d in zip(e, e[1:]):
                    r = T.add(r, T.scale(T.slice_(x[0], c, d - c), 1 << (c - lo)))
                return r
        y = [st(z) for z in x]
        if k == 'slice' and cuts and x[0].id in cuts:
            lo, hi = x[1], x[1] + x[2]
            e = [lo] + [c for c in cuts[x[0].id] if lo < c < hi] + [hi]
            r = 0
            for c, d in zip(e, e[1:]):
                z = T.slice_(y[0], c, d - c)
                r = T.add(r, T.scale(z, 1 << (c - lo)) if z.__class__ is Poly else z << (c - lo))
            return r
        if all(p is q for p, q in zip(x, y)) and not (iv and k == 'mod'):
            return a.poly
        if k == 'slice':
            return T.slice_(y[0], y[1], y[2])
        if k == 'ind':
            return T.ind(y[0])
        if k == 'ite':
            return T.ite(*y)
        if k == 'div':
            if y[1].__class__ is not Poly and y[1] <= 0:
                return 0
            return T.fdiv(*y)
        if k == 'mod':
            if y[1].__class__ is not Poly and y[1] <= 0:
                return 0
            if y[1] == FP:
                if iv and y[0].__class__ is Poly:
                    lo, hi = interval(y[0], iv)
                    if lo is not None and hi is not None and lo // FP == hi // FP:
                        r = T.sub(y[0], lo // FP * FP)
                        if T.rng(r)[0] >= 0:
                            return r
                return T.f_canon(y[0])
            return T.fmod(*y)
        if k == 'max0':
            return T.clamp0(y[0])
        if k == 'inv':
            return T.f_inv(T.f_canon(y[0]) if y[0].__class__ is not Poly else y[0])
        if k == 'nbits' and y[0].__class__ is not Poly:
            return T.blen(y[0])
        lo, hi = a.lo, a.hi
        return T._atom(k, tuple(y), lo, hi).poly

    def sb(b):
        k, x = b.kind, b.args
        if k == 'bit':
            v = sa(x[0])
            return T.bit_bool(v)
        y = [st(z) for z in x]
        if all(p is q for p, q in zip(x, y)):
            return b
        if k == 'le':
            return T._le0(y[0])
        if k == 'eq':
            return T._eq0(y[0])
        if k == 'feq':
            return T.f_eq(y[0], 0)
        if k == 'not':
            return T.bnot(y[0])
        if k == 'and':
            return T.band(*y)
        if k == 'xor':
            return T.bxor(*y)
        if k == 'ite':
            return T.bite(*y)
        raise T.Unsupported('subst ' + k)
    return st(t)


def collect(roots):
    """atoms and slice requests reachable from the roots"""
    seen_a, seen_p, seen_b = set(), set(), set()
    st = list(roots)
    order = []
    while st:
        t = st.pop()
        if t.__class__ is Poly:
            if t.id in seen_p:
                continue
            seen_p.add(t.id)
            for k in t.m:
                for i in k:
                    if i not in seen_a:
                        seen_a.add(i)
                        a = T.ATOMS[i]
                        order.append(a)
                        for x in a.args:
                            if x.__class__ in (Poly, B):
                                st.append(x)
        elif t.__class__ is B:
            if t.id in seen_b:
                continue
            seen_b.add(t.id)
            for x in t.args:
                if x.__class__ in (Poly, B):
                    st.append(x)
                elif x.__class__ is T.Atom:
                    st.append(x.poly)
    return order


def variables(roots):
    return [a for a in collect(roots) if a.kind == 'var']


def alias_slices(cuts):
    """a term that agrees with another modulo 2^e, e the end of its highest slice, takes the slices of
    the other; removes the former from cuts and returns {id: other}"""
    vs = sorted(cuts.values(), key=lambda x: (-max(x[1]), -T.blen(x[0].hi), x[0].id))
    alias = {}
    reps = []
    for W, c in vs:
        e = max(c)
        for V, cv in reps[-60:]:
            d = T.sub(V, W)
            if d.__class__ is Poly:
                ok = all(x % (1 << e) == 0 for x in d.m.values())
            else:
                ok = d % (1 << e) == 0
            if ok:
                alias[W.id] = V
                cv.update(c)
                del cuts[W.id]
                break
        else:
            reps.append((W, c))
    return alias


def chain_digits(cuts):
    """{V.id: (V, set of cuts)} -> ({V.id: (V, sorted cuts)}, {V.id: (parent, c)}): V and its parent
    agree modulo 2^c, so that they share their digits below c"""
    vs = [(V, set(c) | {0, T.blen(V.hi)}) for V, c in cuts.values()]
    vs.sort(key=lambda x: (T.blen(x[0].hi), len(x[0].m), x[0].id))
    parent = {}
    for j, (V, cj) in enumerate(vs):
        best = None
        for i in range(j - 1, max(-1, j - 40), -1):
            W, ci = vs[i]
            d = T.sub(V, W)
            if d.__class__ is Poly:
                k = min((c & -c).bit_length() - 1 for c in d.m.values())
            else:
                k = (d & -d).bit_length() - 1 if d else 1 << 30
            c = max((x for x in ci if x <= k), default=0)
            if c and (best is None or c > best[1]):
                best = (i, c)
        if best:
            parent[j] = best
    change = True
    while change:
        change = False
        for j, (i, c) in parent.items():
            a, b = vs[j][1], vs[i][1]
            low = {x for x in a | b if x <= c}
            if not low <= a or not low <= b:
                a |= low
                b |= low
                change = True
    return {V.id: (V, sorted(c)) for V, c in vs}, {vs[j][0].id: (vs[i][0], c) for j, (i, c) in parent.items()}


class Encoder:
    """one query: the conjunction of boolean terms"""

    def __init__(s, roots, nl=False):
        s.nl = nl
        s.decl = []
        s.asserts = []
        s.defs = []
        s.names = {}
        s.monos = {}
        s.pn = {}
        s.bn = {}
        s.divs = {}
        s.nonlinear = False
        s.vars = {}
        s.subst = {}
        roots = [r for r in roots]
        atoms = collect(roots)
        # digit split of the sliced terms
        cuts = {}
        for a in atoms:
            if a.kind == 'slice':
                V, lo, ln = a.args
                cuts.setdefault(V.id, (V, set()))[1].update((lo, lo + ln))
        s.alias = alias_slices(cuts)
        s.digits, s.parent = chain_digits(cuts)
        for r in roots:
            s.asserts.append(s.b(r))

    # names ------------------------------------------------------
    def var(s, nm, lo, hi):
        s.decl.append((nm, lo, hi))
        return nm

    def num(s, c):
        return str(c) if c >= 0 else f'(- {-c})'

    def atom(s, a):
        nm = s.names.get(a.id)
        if nm is None:
            nm = s._atom(a)
            s.names[a.id] = nm
        return nm

    def _atom(s, a):
        k, x = a.kind, a.args
        if k == 'var':
            nm = f'v{a.id}'
            s.vars[x[0]] = nm
            return s.var(nm, a.lo, a.hi)
        if k == 'slice':
            V, lo, ln = x
            ds = s.digit_vars(s.alias.get(V.id, V))
            parts = [(c0, w, n) for c0, w, n in ds if lo <= c0 < lo + ln]
            ts = [n if c0 == lo else f'(* {1 << (c0 - lo)} {n})' for c0, w, n in parts]
            return s.define('Int', f'(+ {" ".join(ts)})') if len(ts) > 1 else ts[0]
        if k == 'ind':
            return s.define('Int', f'(ite {s.b(x[0])} 1 0)')
        if k == 'ite':
            return s.define('Int', f'(ite {s.b(x[0])} {s.p(x[1])} {s.p(x[2])})')
        if k == 'max0':
            p = s.p(x[0])
            return s.define('Int', f'(ite (>= {p} 0) {p} 0)')
        if k in ('div', 'mod'):
            q, r = s.divmod(x[0], x[1])
            return q if k == 'div' else r
        if k == 'nbits':
            p = s.p(x[0])
            lo, hi = T.rng(x[0])
            n = T.blen(hi)
            b0 = T.blen(max(lo, 0))
            ts = [f'(ite (>= {p} {1 << i}) 1 0)' for i in range(b0, n)]
            return s.define('Int', f'(+ {b0} 0 {" ".join(ts)})')
        if k == 'inv':
            nm = s.names[a.id] = s.var(f'v{a.id}', 0, FP - 1)     # the product below mentions it
            z = s.b(T.f_eq(x[0], 0))
            s.asserts.append(f'(=> {z} (= {nm} 0))')
            pr = T.f_small(T.mul(x[0], a.poly)) if x[0].__class__ is Poly else T.scale(a.poly, T.sym_c(x[0]))
            one = s.b(T.f_eq(pr, 1))
            s.asserts.append(f'(=> (not {z}) {one})')
            return nm
        nm = f'v{a.id}'
        s.nonlinear = True
        return s.var(nm, a.lo, a.hi)

    def digit_vars(s, V):
        key = ('d', V.id)
        r = s.names.get(key)
        if r is None:
            _, c = s.digits[V.id]
            par = s.parent.get(V.id)
            base = 0
            r = []
            hi_p = []
            if par is not None:
                # the digits below the common cut are those of the parent
                W, base = par
                dw = s.digit_vars(W)
                r = [x for x in dw if x[0] < base]
                hi_p = [x for x in dw if x[0] >= base]
            for j in range(len(c) - 1):
                w = c[j + 1] - c[j]
                if w <= 0 or c[j] < base:
                    continue
                r.append((c[j], w, s.var(f'd{V.id}_{c[j]}', 0, (1 << w) - 1)))
            s.names[key] = r
            wt = lambda x: x[2] if x[0] == base else f'(* {1 << (x[0] - base)} {x[2]})'
            ts = [wt(x) for x in r if x[0] >= base]
            lhs = s.p(V) if par is None else s.p(T._mk({k: v >> base for k, v in T.sub(V, par[0]).m.items()})) \
                if T.sub(V, par[0]).__class__ is Poly else s.num(T.sub(V, par[0]) >> base)
            if hi_p:
                lhs = f'(+ {lhs} {" ".join(wt(x) for x in hi_p)})'
            s.asserts.append(f'(= {lhs} (+ 0 {" ".join(ts)}))')
        return r

    def divmod(s, a, b):
        ka = a.id if a.__class__ is Poly else ('c', a)
        kb = b.id if b.__class__ is Poly else ('c', b)
        r = s.divs.get((ka, kb))
        if r is None:
            n = len(s.divs)
            al, ah = T.rng(a)
            bl, bh = T.rng(b)
            if b.__class__ is not Poly:
                q = s.var(f'q{n}', al // b, ah // b)
                m = s.var(f'r{n}', 0, b - 1)
                s.asserts.append(f'(= {s.p(a)} (+ (* {b} {q}) {m}))')
            else:
                qa = T.var(f'$q{ka}.{kb}', min(al // max(bl, 1), al, 0), max(ah, 0))
                ra = T.var(f'$r{ka}.{kb}', 0, max(bh - 1, 0))
                q, m = s.p(qa), s.p(ra)
                e = s.b(T.eq(a, T.add(T.mul(qa, b), ra)))
                if bl > 0:
                    s.asserts.append(f'(and {e} (< {m} {s.p(b)}))')
                else:
                    s.asserts.append(f'(ite (> {s.p(b)} 0) (and {e} (< {m} {s.p(b)})) (and (= {q} 0) (= {m} 0)))')
            r = (q, m)
            s.divs[(ka, kb)] = r
        return r

    def define(s, sort, body):
        nm = f'x{len(s.defs)}'
        s.defs.append((nm, sort, body))
        s.decl.append(('def', nm, sort, body))
        return nm

    def mono(s, k):
        """SMT term of a monomial"""
        if len(k) == 1:
            return s.atom(T.ATOMS[k[0]])
        r = s.monos.get(k)
        if r is not None:
            return r
        conds = []
        rest = []
        for i in k:
            a = T.ATOMS[i]
            if a.lo == 0 and a.hi == 1:
                conds.append(s.b(a.args[0]) if a.kind == 'ind' else f'(= {s.atom(a)} 1)')
            else:
                rest.append(i)
        if not rest:
            core = '1'
        elif len(rest) == 1:
            core = s.atom(T.ATOMS[rest[0]])
        else:
            s.nonlinear = True
            rk = tuple(rest)
            core = s.monos.get(rk)
            if core is None:
                if s.nl:
                    core = s.define('Int', f'(* {" ".join(s.atom(T.ATOMS[i]) for i in rest)})')
                else:
                    lo, hi = T._mono_rng(rk)
                    core = s.var('m' + '_'.join(map(str, rest)), lo, hi)
                s.monos[rk] = core
        r = core if not conds else s.define('Int', f'(ite (and {" ".join(conds)} true) {core} 0)')
        s.monos[k] = r
        return r

    def p(s, t):
        if t.__class__ is not Poly:
            return s.num(t)
        r = s.pn.get(t.id)
        if r is None:
            ts = []
            for k, c in t.m.items():
                if not k:
                    ts.append(s.num(c))
                else:
                    m = s.mono(k)
                    ts.append(m if c == 1 else f'(* {s.num(c)} {m})')
            body = ts[0] if len(ts) == 1 else f'(+ {" ".join(ts)})'
            r = body if len(body) < 40 else s.define('Int', body)
            s.pn[t.id] = r
        return r

    def b(s, t):
        if t.__class__ is not B:
            return 'true' if t else 'false'
        r = s.bn.get(t.id)
        if r is None:
            r = s._b(t)
            if len(r) > 30:
                r = s.define('Bool', r)
            s.bn[t.id] = r
        return r

    def _b(s, t):
        k, x = t.kind, t.args
        if k == 'le':
            return f'(<= {s.p(x[0])} 0)'
        if k == 'eq':
            return f'(= {s.p(x[0])} 0)'
        if k == 'feq':
            lo, hi = T.rng(x[0])
            a, b = -((-lo) // FP), hi // FP
            p = s.p(x[0])
            if b - a <= 3:
                return '(or false ' + ' '.join(f'(= {p} {s.num(FP * j)})' for j in range(a, b + 1)) + ')'
            n = len(s.divs)
            q = s.var(f'q{n}', lo // FP, hi // FP)
            m = s.var(f'r{n}', 0, FP - 1)
            s.divs[('feq', t.id)] = (q, m)
            s.asserts.append(f'(= {p} (+ (* {FP} {q}) {m}))')
            return f'(= {m} 0)'
        if k == 'bit':
            return f'(= {s.atom(x[0])} 1)'
        if k == 'not':
            return f'(not {s.b(x[0])})'
        if k == 'and':
            return f'(and {" ".join(s.b(y) for y in x)})'
        if k == 'xor':
            return f'(xor {s.b(x[0])} {s.b(x[1])})'
        if k == 'ite':
            return f'(ite {s.b(x[0])} {s.b(x[1])} {s.b(x[2])})'
        raise T.Unsupported('smt ' + k)

    def text(s, logic=None):
        out = ['(set-option :produce-models true)',
               f'(set-logic {logic or ("QF_NIA" if s.nl and s.nonlinear else "QF_LIA")})']
        for d in s.decl:
            if d[0] == 'def':
                _, nm, sort, body = d
                out.append(f'(define-fun {nm} () {sort} {body})')
            else:
                nm, lo, hi = d
                out.append(f'(declare-fun {nm} () Int)')
                if lo is not None:
                    out.append(f'(assert (and (<= {s.num(lo)} {nm}) (<= {nm} {s.num(hi)})))')
        for a in s.asserts:
            if a != 'true':
                out.append(f'(assert {a})')
        out.append('(check-sat)')
        return '\n'.join(out)


def _kill(ps):
    for p in ps:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


def _parse_model(txt):
    out = {}
    for m in re.finditer(r'\(([A-Za-z]\w*)\s+(\(-\s*\d+\)|\d+)\)', txt):
        v = m.group(2)
        out[m.group(1)] = -int(re.sub(r'\D', '', v)) if v[0] == '(' else int(v)
    return out


def solve_text(text, names, timeout, solvers=('z3', 'cvc5'), stagger=1.0):
    """-> (verdict, model of the declared names, solver)"""
    q = text
    if names:
        q += '\n(get-value (' + ' '.join(names) + '))\n'
    t0 = time.time()
    procs = []
    files = []
    verdict, model, who = 'unknown', None, None
    pending = list(solvers)
    try:
        while True:
            now = time.time() - t0
            if pending and (not procs or now > stagger or all(p.poll() is not None for p, _, _ in procs)):
                nm = pending.pop(0)
                f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
                f.write(q + '\n')
                f.close()
                files.append(f.name)
                o = tempfile.TemporaryFile('w+')
                cmd = [c for c in SOLVERS[nm] if c != '-in'] + [f.name]
                if nm == 'z3':
                    cmd.insert(1, f'-T:{int(timeout) + 1}')
                else:
                    cmd.insert(1, f'--tlimit={int(timeout * 1000)}')
                p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.DEVNULL, start_new_session=True)
                procs.append((p, o, nm))
            done = False
            for p, o, nm in procs:
                if p.poll() is not None:
                    o.seek(0)
                    txt = o.read()
                    first = txt.split('\n', 1)[0].strip()
                    if first in ('sat', 'unsat'):
                        verdict, who = first, nm
                        if first == 'sat':
                            model = _parse_model(txt)
                        done = True
                        break
            if done:
                break
            if not pending and all(p.poll() is not None for p, _, _ in procs):
                break
            if time.time() - t0 > timeout + 2:
                break
            time.sleep(0.002 if time.time() - t0 < 0.2 else 0.02)
    finally:
        _kill([p for p, _, _ in procs])
        for _, o, _ in procs:
            o.close()
        for f in files:
            os.unlink(f)
    dt = time.time() - t0
    STATS.queries += 1
    STATS.seconds += dt
    setattr(STATS, verdict, getattr(STATS, verdict) + 1)
    if who:
        STATS.by[who] = STATS.by.get(who, 0) + 1
    return verdict, model, who


REFINE = not os.environ.get('SYMX_NOREFINE')
DEBUG = os.environ.get('SYMX_SMT_DUMP')


def query(conj, timeout=20, nl=False, want=()):
    """satisfiability of the conjunction of boolean terms.
    -> ('unsat', None) | ('sat', {var name: int}, exact?) | ('unknown', None)"""
    c = T.band(*conj)
    if c.__class__ is not B:
        STATS.trivial += 1
        return ('sat', {}, True) if c else ('unsat', None, True)
    roots = list(c.args) if c.kind == 'and' else [c]
    if REFINE:
        c = T.band(*refine(roots))
        if c.__class__ is not B:
            STATS.trivial += 1
            return ('sat', {}, True) if c else ('unsat', None, True)
        roots = list(c.args) if c.kind == 'and' else [c]
    e = Encoder(roots, nl=nl)
    txt = e.text()
    if DEBUG:
        with open(f'{DEBUG}.{os.getpid()}.{STATS.queries}.smt2', 'w') as f:
            f.write(txt)
    names = list(e.vars.values())
    v, m, who = solve_text(txt, names, timeout)
    if v == 'sat':
        inv = {sv: nm for nm, sv in e.vars.items()}
        return 'sat', {inv[k]: x for k, x in m.items() if k in inv}, (nl or not e.nonlinear)
    return v, None, True
