"""Hash-consed symbolic terms over the integers and booleans.

Integer terms are polynomials with integer coefficients over atoms; a constant term is a plain
Python int.  Boolean terms are Python bools or B objects.  A prime-field element is an integer
term read modulo the field order FP (see the f_* functions).
Every constructor only rewrites by identities valid for all values of the variables.
"""
FP = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001


class Unsupported(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'poly')

    def __repr__(self):
        return f'<{self.kind}#{self.id}>'


class Poly:
    __slots__ = ('id', 'm', 'lo', 'hi', 'deg', 'hs')

    def __repr__(self):
        return show(self)


class B:
    __slots__ = ('id', 'kind', 'args', 'neg')

    def __repr__(self):
        return showb(self)


_atoms = {}
ATOMS = []
_polys = {}
_bools = {}
_nb = [0]
_np = [0]


def reset():
    _atoms.clear(); ATOMS.clear(); _polys.clear(); _bools.clear()
    _nb[0] = 0; _np[0] = 0
    _chunk_cache.clear(); _slice_cache.clear(); _pair_cache.clear()


# ---------------------------------------------------------------- atoms / polynomials
def _atom(kind, args, lo, hi):
    key = (kind,) + tuple(('p', a.id) if a.__class__ is Poly else ('b', a.id) if a.__class__ is B else a for a in args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS); a.kind = kind; a.args = args; a.lo = lo; a.hi = hi
        ATOMS.append(a)
        _atoms[key] = a
        a.poly = _mk({(a.id,): 1}) if lo != hi else lo
    return a


def _mono_rng(mono):
    lo = hi = 1
    i = 0
    n = len(mono)
    while i < n:
        a = ATOMS[mono[i]]
        j = i
        while j < n and mono[j] == mono[i]:
            j += 1
        k = j - i
        al, ah = a.lo, a.hi
        if al is None or ah is None:
            return (None, None)
        if k > 1:
            c = (al ** k, ah ** k)
            if k % 2 == 0 and al < 0 < ah:
                al, ah = 0, max(c)
            else:
                al, ah = min(c), max(c)
        c = (lo * al, lo * ah, hi * al, hi * ah)
        lo, hi = min(c), max(c)
        i = j
    return lo, hi


def _mk(m):
    """m: dict mono -> nonzero coef"""
    if not m:
        return 0
    if len(m) == 1 and () in m:
        return m[()]
    key = frozenset(m.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.m = m
        p.id = _np[0]; _np[0] += 1
        lo = hi = 0
        deg = 0
        hs = False
        for mono, c in m.items():
            if not mono:
                if lo is not None:
                    lo += c
                if hi is not None:
                    hi += c
                continue
            if len(mono) > deg:
                deg = len(mono)
            if len(mono) == 1:
                a = ATOMS[mono[0]]
                l, h = a.lo, a.hi
                if a.kind == 'slice':
                    hs = True
            else:
                l, h = _mono_rng(mono)
            if l is None:
                lo = hi = None
                continue
            if c < 0:
                l, h = h, l
            if lo is not None:
                lo += c * l
            if hi is not None:
                hi += c * h
        p.lo = lo; p.hi = hi; p.deg = deg; p.hs = hs
        _polys[key] = p
    return p


def rng(a):
    if a.__class__ is Poly:
        return a.lo, a.hi
    return a, a


def var(name, lo, hi):
    a = _atom('var', (name,), lo, hi)
    if (a.lo, a.hi) != (lo, hi):
        raise Unsupported(f'two ranges for {name}')
    return a.poly


def is_c(a):
    return a.__class__ is not Poly


def add(a, b):
    if a.__class__ is not Poly:
        if b.__class__ is not Poly:
            return a + b
        a, b = b, a
    if b.__class__ is not Poly:
        if b == 0:
            return a
        m = dict(a.m)
        c = m.get((), 0) + b
        if c:
            m[()] = c
        else:
            m.pop((), None)
        return _mk(m)
    if len(b.m) > len(a.m):
        a, b = b, a
    m = dict(a.m)
    for k, c in b.m.items():
        v = m.get(k)
        if v is None:
            m[k] = c
        else:
            v += c
            if v:
                m[k] = v
            else:
                del m[k]
    if MERGE and a.hs and b.hs:
        return _merge_slices(m)
    return _mk(m)


MERGE = True      # adjacent slices of one term are joined


def _merge_slices(m):
    groups = {}
    for k, c in m.items():
        if len(k) == 1:
            a = ATOMS[k[0]]
            if a.kind == 'slice':
                V = a.args[0]
                V0 = V.m.get((), 0)
                groups.setdefault(_mk({x: y for x, y in V.m.items() if x}).id if V0 else V.id, []).append((a.args[1], a.args[2], c, k))
    extra = None
    for lst in groups.values():
        if len(lst) < 2:
            continue
        lst.sort()
        i = 0
        while i < len(lst) - 1:
            lo, ln, c, k = lst[i]
            lo2, ln2, c2, k2 = lst[i + 1]
            V = ATOMS[k2[0]].args[0]
            if lo2 == lo + ln and c2 == c << ln and (V.m.get((), 0) - ATOMS[k[0]].args[0].m.get((), 0)) % (1 << lo2) == 0:
                if k in m and m[k] == c:
                    del m[k]
                if k2 in m and m[k2] == c2:
                    del m[k2]
                s = slice_(V, lo, ln + ln2)
                at = None
                if s.__class__ is Poly and len(s.m) == 1:
                    (kk, cc), = s.m.items()
                    if len(kk) == 1 and cc == 1 and ATOMS[kk[0]].kind == 'slice' and kk not in m:
                        at = kk
                if at is not None:
                    m[at] = c
                    lst[i:i + 2] = [(lo, ln + ln2, c, at)]
                else:
                    t = scale(s, c)
                    extra = t if extra is None else add(extra, t)
                    del lst[i:i + 2]
            else:
                i += 1
    r = _mk(m)
    if extra is not None:
        r = add(r, extra)
    return r


def scale(a, c):
    if a.__class__ is not Poly:
        return a * c
    if c == 0:
        return 0
    if c == 1:
        return a
    return _mk({k: v * c for k, v in a.m.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if a is b:
        return 0
    return add(a, scale(b, -1))


def _mulmono(x, y):
    if not x:
        return y
    if not y:
        return x
    r = sorted(x + y)
    # idempotent 0/1 atoms
    out = []
    for i in r:
        if out and out[-1] == i:
            a = ATOMS[i]
            if a.lo == 0 and a.hi == 1:
                continue
        out.append(i)
    if len(out) > 1:
        out = _inds(out)
        if out is None:
            return None
    return tuple(out)


_pair_cache = {}


def _pair(i, j):
    """product of the indicators i and j: None (nothing known), -1 (zero), or the id of the smaller one"""
    r = _pair_cache.get((i, j), 0)
    if r != 0:
        return r - 1 if r is not None and r > 0 else r
    a, b = ATOMS[i].args[0], ATOMS[j].args[0]
    r = None
    if a.kind in ('eq', 'le') and b.kind in ('eq', 'le'):
        p, q = a.args[0], b.args[0]
        if len(p.m) - (() in p.m) == len(q.m) - (() in q.m):
            for s in (1, -1):
                d = sub(q, scale(p, s))
                if d.__class__ is Poly:
                    continue
                # q = s*p + d
                if a.kind == 'eq' and b.kind == 'eq':
                    if d:
                        r = -1
                elif a.kind == 'eq':
                    r = -1 if d > 0 else i
                elif b.kind == 'eq':
                    # p = s*(q - d)
                    r = -1 if -s * d > 0 else j
                elif s == -1:
                    if d > 0:
                        r = -1
                else:
                    r = j if d >= 0 else i
                break
    _pair_cache[(i, j)] = r if r is None or r < 0 else r + 1
    return r


def _inds(ids):
    k = [i for i in ids if ATOMS[i].kind == 'ind']
    if len(k) < 2:
        return ids
    drop = set()
    for x in range(len(k)):
        for y in range(x + 1, len(k)):
            r = _pair(k[x], k[y])
            if r is None:
                continue
            if r == -1:
                return None
            drop.add(k[y] if r == k[x] else k[x])
    return [i for i in ids if i not in drop] if drop else ids


def single(a):
    """(atom, coef) when the term is coef*atom"""
    if a.__class__ is Poly and len(a.m) == 1:
        (k, c), = a.m.items()
        if len(k) == 1:
            return ATOMS[k[0]], c
    return None, 0


def ratio(a, b):
    """constant c with a == c*b, or None"""
    if a is b:
        return 1
    if a.__class__ is not Poly or b.__class__ is not Poly or len(a.m) != len(b.m):
        return None
    k = next(iter(b.m))
    if k not in a.m or a.m[k] % b.m[k]:
        return None
    c = a.m[k] // b.m[k]
    for k, v in b.m.items():
        if a.m.get(k) != c * v:
            return None
    return c


def mul(a, b):
    if a.__class__ is not Poly:
        return scale(b, a)
    if b.__class__ is not Poly:
        return scale(a, b)
    sa, ca = single(a)
    sb, cb = single(b)
    if sa is not None and sa.kind == 'ite' and (sa.args[1].__class__ is not Poly or sa.args[2].__class__ is not Poly):
        c, x, y = sa.args
        return ite(c, mul(scale(x, ca), b), mul(scale(y, ca), b))
    if sb is not None and sb.kind == 'ite' and (sb.args[1].__class__ is not Poly or sb.args[2].__class__ is not Poly):
        c, x, y = sb.args
        return ite(c, mul(a, scale(x, cb)), mul(a, scale(y, cb)))
    m = {}
    for k1, c1 in a.m.items():
        for k2, c2 in b.m.items():
            k = _mulmono(k1, k2)
            if k is None:
                continue
            v = m.get(k, 0) + c1 * c2
            if v:
                m[k] = v
            else:
                m.pop(k, None)
    return _mk(m)


def subst(t, mp):
    """replace atoms (by id) in polynomial t by the terms in mp"""
    if t.__class__ is not Poly:
        return t
    if not any(i in mp for k in t.m for i in k):
        return t
    r = 0
    for k, c in t.m.items():
        x = c
        for i in k:
            x = mul(x, mp[i] if i in mp else ATOMS[i].poly)
        r = add(r, x)
    return r


# ---------------------------------------------------------------- bits
def blen(n):
    return n.bit_length()


_chunk_cache = {}


def chunks(V):
    """V as disjoint bit fields [(shift, term, width)] (terms >= 0), or None"""
    r = _chunk_cache.get(V.id, 0)
    if r != 0:
        return r
    r = None
    by = {}
    ok = True
    for k, c in V.m.items():
        if not k:
            t, sh = c, None
            if c < 0:
                ok = False
                break
            by.setdefault('c', []).append(c)
            continue
        if c < 0:
            ok = False
            break
        tz = (c & -c).bit_length() - 1
        by.setdefault(tz, []).append((k, c >> tz))
    if ok:
        const = by.pop('c', [0])[0]
        parts = []
        for tz in sorted(by):
            t = _mk({k: c for k, c in by[tz]})
            if t.lo is None or t.lo < 0:
                ok = False
                break
            parts.append((tz, t, blen(t.hi)))
        if ok:
            for i in range(len(parts) - 1):
                if parts[i][0] + parts[i][2] > parts[i + 1][0]:
                    # overlapping: fold together
                    ok = False
                    break
        if ok and const:
            # constant must not overlap any field
            for sh, t, w in parts:
                if (const >> sh) & ((1 << w) - 1):
                    ok = False
                    break
            if ok:
                allp = list(parts)
                cur = 0
                res = []
                for sh, t, w in parts:
                    if sh > cur:
                        res.append((cur, (const >> cur) & ((1 << (sh - cur)) - 1), sh - cur))
                    res.append((sh, t, w))
                    cur = sh + w
                if const >> cur:
                    res.append((cur, const >> cur, blen(const >> cur)))
                parts = [x for x in res if x[1].__class__ is Poly or x[1] != 0]
        if ok:
            r = parts
    _chunk_cache[V.id] = r
    return r


_slice_cache = {}


def slice_(V, lo, ln):
    """(V >> lo) mod 2^ln for V >= 0"""
    if ln <= 0:
        return 0
    if V.__class__ is not Poly:
        return (V >> lo) & ((1 << ln) - 1)
    key = (V.id, lo, ln)
    r = _slice_cache.get(key)
    if r is None:
        r = _slice(V, lo, ln)
        _slice_cache[key] = r
    return r


def _slice(V, lo, ln):
    if V.lo is None or V.lo < 0:
        raise Unsupported('slice of possibly negative term')
    k = blen(V.hi)
    if lo >= k:
        return 0
    if lo + ln >= k:
        ln = k - lo
        if lo == 0:
            return V
    a, c = single(V)
    if a is not None and c == 1 and a.kind == 'slice':
        return slice_(a.args[0], a.args[1] + lo, min(ln, a.args[2] - lo))
    top = lo + ln
    # drop everything divisible by 2^top
    if len(V.m) > 1 or c != 1:
        md = 1 << top
        m2 = {}
        for kk, cc in V.m.items():
            r = cc % md
            if r:
                if cc < 0:
                    # keep a small negative coefficient if it is smaller in magnitude
                    r = cc if -cc < md else r - md
                m2[kk] = r
        W = _mk(m2)
        if W is not V:
            if W.__class__ is not Poly:
                return (W >> lo) & ((1 << ln) - 1)
            if W.lo >= 0:
                return slice_(W, lo, ln)
            # shift into the non-negative range by a multiple of 2^top
            q = (-W.lo + md - 1) // md
            W = add(W, q * md)
            if W.hi < V.hi:
                return slice_(W, lo, ln)
        # exact shift of the part divisible by 2^lo
        if lo:
            low = {}
            high = {}
            for kk, cc in V.m.items():
                if cc % (1 << lo) == 0:
                    high[kk] = cc >> lo
                elif not kk:
                    low[kk] = cc % (1 << lo)
                    if cc >> lo:
                        high[kk] = cc >> lo
                else:
                    low[kk] = cc
            L = _mk(low)
            l, h = rng(L)
            if l >= 0 and h < (1 << lo) and high:
                return slice_(_mk(high), 0, ln)
        ch = chunks(V)
        if ch is not None and len(ch) > 1:
            res = 0
            for sh, t, w in ch:
                s, e = max(sh, lo), min(sh + w, top)
                if s < e:
                    res = add(res, scale(slice_(t, s - sh, e - s), 1 << (s - lo)))
            return res
        if c and c > 1 and (c & (c - 1)) == 0:
            sh = c.bit_length() - 1
            if lo >= sh:
                return slice_(a.poly, lo - sh, ln)
    if a is not None and c == 1 and a.kind == 'ite' and a.args[1].__class__ is not Poly and a.args[2].__class__ is not Poly:
        return ite(a.args[0], slice_(a.args[1], lo, ln), slice_(a.args[2], lo, ln))
    hi = V.hi >> lo if top >= k else (1 << ln) - 1
    return _atom('slice', (V, lo, ln), 0, hi).poly


def shr(V, n):
    """floor(V / 2^n) for V >= 0"""
    if V.__class__ is not Poly:
        return V >> n
    return slice_(V, n, max(blen(V.hi) - n, 0))


def wrap(V, n):
    """V mod 2^n"""
    if V.__class__ is not Poly:
        return V & ((1 << n) - 1)
    if V.lo is not None and V.lo >= 0:
        if V.hi < (1 << n):
            return V
        return slice_(V, 0, n)
    # make non-negative
    md = 1 << n
    q = (-V.lo + md - 1) // md
    return slice_(add(V, q * md), 0, n)


def to_signed(V, n):
    """value of the n-bit two's complement pattern V in [0,2^n)"""
    if V.__class__ is not Poly:
        return V - (1 << n) if V >> (n - 1) else V
    if V.hi < (1 << (n - 1)):
        return V
    if V.lo >= (1 << (n - 1)):
        return sub(V, 1 << n)
    s = slice_(V, n - 1, 1)
    return sub(V, scale(s, 1 << n))


# ---------------------------------------------------------------- division
def fdiv(a, b):
    """floor(a/b), b > 0"""
    if b.__class__ is not Poly:
        if b <= 0:
            raise Unsupported('division by a non-positive constant')
        if a.__class__ is not Poly:
            return a // b
        if b == 1:
            return a
        # split multiples of b
        hi, lo = {}, {}
        for k, c in a.m.items():
            if c % b == 0:
                hi[k] = c // b
            elif not k:
                lo[k] = c % b
                if c // b:
                    hi[k] = c // b
            else:
                lo[k] = c
        L = _mk(lo)
        l, h = rng(L)
        if l // b == h // b:
            return add(_mk(hi), l // b)
        if a.lo >= 0 and (b & (b - 1)) == 0:
            return shr(a, b.bit_length() - 1)
        if hi:
            return add(_mk(hi), fdiv(L, b))
        return _atom('div', (a, b), a.lo // b, a.hi // b).poly
    if b.lo <= 0:
        # defined by the axioms only where b > 0
        bl, bh = 1, max(b.hi, 1)
    else:
        bl, bh = b.lo, b.hi
    if a.__class__ is not Poly and a == 0:
        return 0
    al, ah = rng(a)
    c = (al // bl, al // bh, ah // bl, ah // bh)
    return _atom('div', (a, b), min(c), max(c)).poly


def fmod(a, b):
    """a mod b in [0,b), b > 0"""
    if b.__class__ is not Poly:
        if a.__class__ is not Poly:
            return a % b
        if (b & (b - 1)) == 0:
            return wrap(a, b.bit_length() - 1)
        m = {}
        for k, c in a.m.items():
            r = c % b
            if r:
                if not k or r <= b // 2:
                    m[k] = r
                else:
                    m[k] = r - b
        A = _mk(m)
        l, h = rng(A)
        if l // b == h // b:
            return sub(A, (l // b) * b)
        l, h = rng(a)
        if l // b == h // b:
            return sub(a, (l // b) * b)
        return _atom('mod', (a, b), 0, b - 1).poly
    if a.__class__ is not Poly and a == 0:
        return 0
    al, ah = rng(a)
    if al >= 0 and b.lo > ah:
        return a
    hi = max(b.hi - 1, 0)
    if al >= 0:
        hi = min(hi, ah)
    return _atom('mod', (a, b), 0, hi).poly


def tdiv(a, b):
    """truncated division (num-bigint `/`) for b > 0"""
    l, h = rng(a)
    if l >= 0:
        return fdiv(a, b)
    if h <= 0:
        return neg(fdiv(neg(a), b))
    if b.__class__ is not Poly and a.__class__ is not Poly:
        return a // b if a >= 0 else -((-a) // b)
    # fdiv/neg on the sub-ranges
    return ite(le(0, a), fdiv(clamp0(a), b), neg(fdiv(clamp0(neg(a)), b)))


def clamp0(a):
    """max(a, 0)"""
    l, h = rng(a)
    if l >= 0:
        return a
    if h <= 0:
        return 0
    return _atom('max0', (a,), 0, h).poly


def trem(a, b):
    l, h = rng(a)
    if l >= 0:
        return fmod(a, b)
    return sub(a, mul(tdiv(a, b), b))


# ---------------------------------------------------------------- booleans
def _b(kind, args):
    key = (kind,) + tuple((x.__class__.__name__, x.id) if x.__class__ in (Poly, B, Atom) else x for x in args)
    b = _bools.get(key)
    if b is None:
        b = B()
        b.id = _nb[0]; _nb[0] += 1
        b.kind = kind; b.args = args; b.neg = None
        _bools[key] = b
    return b


def bnot(a):
    if a.__class__ is not B:
        return not a
    if a.neg is None:
        if a.kind == 'not':
            n = a.args[0]
        elif a.kind == 'le':
            # not (p <= 0)  <=>  1 - p <= 0
            n = _le0(sub(1, a.args[0]))
            if n.__class__ is not B:
                n = _b('not', (a,))
        else:
            n = _b('not', (a,))
        a.neg = n
        n.neg = a
    return a.neg


def band(*xs):
    out = {}
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x.__class__ is not B:
            if not x:
                return False
            continue
        if x.kind == 'and':
            st.extend(reversed(x.args))
            continue
        if x.id in out:
            continue
        if x.neg is not None and x.neg.id in out:
            return False
        out[x.id] = x
    if not out:
        return True
    v = list(out.values())
    if len(v) == 1:
        return v[0]
    v.sort(key=lambda b: b.id)
    return _b('and', tuple(v))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bxor(a, b):
    if a.__class__ is not B:
        return bnot(b) if a else b
    if b.__class__ is not B:
        return bnot(a) if b else a
    if a is b:
        return False
    if a.neg is b:
        return True
    if a.id > b.id:
        a, b = b, a
    return _b('xor', (a, b))


def bite(c, a, b):
    if c.__class__ is not B:
        return a if c else b
    if a is b or (a.__class__ is not B and b.__class__ is not B and bool(a) == bool(b)):
        return a
    if a.__class__ is not B:
        return bor(c, b) if a else band(bnot(c), b)
    if b.__class__ is not B:
        return bor(bnot(c), a) if b else band(c, a)
    if c is a:
        return bor(c, b)
    if c is b:
        return band(c, a)
    return _b('ite', (c, a, b))


def implies(a, b):
    return bor(bnot(a), b)


def bit_bool(x):
    """boolean (x == 1) of a 0/1 integer term"""
    if x.__class__ is not Poly:
        return bool(x)
    return eq(x, 1)


def ind(b):
    if b.__class__ is not B:
        return 1 if b else 0
    if b.kind == 'bit':
        return b.args[0].poly
    if b.kind == 'not':
        return sub(1, ind(b.args[0]))
    if b.kind == 'le' and b.neg is not None and b.neg.kind == 'le' and b.neg.id < b.id:
        return sub(1, _atom('ind', (b.neg,), 0, 1).poly)
    return _atom('ind', (b,), 0, 1).poly


def _bitatom(a):
    """boolean for a 0/1 atom"""
    if a.kind == 'ind':
        return a.args[0]
    return _b('bit', (a,))


def _primitive(p):
    from math import gcd
    g = 0
    for k, c in p.m.items():
        if k:
            g = gcd(g, c)
            if g == 1:
                break
    return g


def _le0(p):
    if p.__class__ is not Poly:
        return p <= 0
    if p.hi is not None and p.hi <= 0:
        return True
    if p.lo is not None and p.lo > 0:
        return False
    g = _primitive(p)
    if g > 1:
        c = p.m.get((), 0)
        m = {k: v // g for k, v in p.m.items() if k}
        c = -((-c) // g)  # ceil(c/g)
        if c:
            m[()] = c
        p = _mk(m)
    ks = [k for k in p.m if k]
    if len(ks) == 1 and len(ks[0]) == 1:
        a = ATOMS[ks[0][0]]
        if a.lo == 0 and a.hi == 1:
            c0 = p.m.get((), 0)
            c1 = p.m[ks[0]]
            v0, v1 = c0 <= 0, c0 + c1 <= 0
            b = _bitatom(a)
            return (True if v0 else b) if v1 else (bnot(b) if v0 else False)
        if a.kind == 'nbits':
            # nbits(|x|) <= k  iff  -2^k < x < 2^k
            c0 = p.m.get((), 0); c1 = p.m[ks[0]]
            k = -c0 if c1 > 0 else c0 - 1
            r = band(lt(-(1 << k), a.args[1]), lt(a.args[1], 1 << k)) if k >= 0 else False
            return r if c1 > 0 else bnot(r)
        if a.kind == 'ite' and a.args[1].__class__ is not Poly and a.args[2].__class__ is not Poly:
            c0 = p.m.get((), 0); c1 = p.m[ks[0]]
            return bite(a.args[0], _le0(c0 + c1 * a.args[1]), _le0(c0 + c1 * a.args[2]))
    # canonical form is one of p<=0 / not(1-p<=0): make both share one node
    q = sub(1, p)
    kp = _bools.get(('le', ('Poly', p.id)))
    if kp is not None:
        return kp
    b = _b('le', (p,))
    nb = _bools.get(('le', ('Poly', q.id)))
    if nb is None:
        nb = _b('le', (q,))
    b.neg = nb; nb.neg = b
    return b


def le(a, b):
    return _le0(sub(a, b))


def lt(a, b):
    return _le0(add(sub(a, b), 1))


def _eq0(p):
    if p.__class__ is not Poly:
        return p == 0
    if (p.hi is not None and p.hi < 0) or (p.lo is not None and p.lo > 0):
        return False
    g = _primitive(p)
    c = p.m.get((), 0)
    if c % g:
        return False
    # canonical sign and content
    k0 = min((k for k in p.m if k))
    s = -1 if p.m[k0] < 0 else 1
    if g * s != 1:
        p = _mk({k: v // (g * s) for k, v in p.m.items()})
        if p.__class__ is not Poly:
            return p == 0
    ks = [k for k in p.m if k]
    if len(ks) == 1 and len(ks[0]) == 1:
        a = ATOMS[ks[0][0]]
        c0 = p.m.get((), 0)
        c1 = p.m[ks[0]]
        if a.lo == 0 and a.hi == 1:
            v0, v1 = c0 == 0, c0 + c1 == 0
            b = _bitatom(a)
            return (True if v0 else b) if v1 else (bnot(b) if v0 else False)
        if a.kind == 'ite' and (a.args[1].__class__ is not Poly or a.args[2].__class__ is not Poly):
            return bite(a.args[0], _eq0(add(c0, scale(a.args[1], c1))), _eq0(add(c0, scale(a.args[2], c1))))
        if a.kind == 'inv' and c0 == 0:
            return f_eq(a.args[0], 0)
    if p.hs:
        # V = V mod 2^k  iff  0 <= V < 2^k
        sl = {}
        for k, c in p.m.items():
            if len(k) == 1:
                a = ATOMS[k[0]]
                if a.kind == 'slice' and abs(c) == 1 << a.args[1]:
                    sl.setdefault((1 if c > 0 else -1, a.args[1]), []).append((k, a))
        for s in (1, -1):
            r = _whole(p, s, 0, sl, ())
            if r is not None:
                V, n = r
                return band(le(0, V), lt(V, 1 << n))
    # both sides of a condition decide it
    ites = {ATOMS[i] for k in p.m for i in k if ATOMS[i].kind == 'ite'}
    if 0 < len(ites) <= 2:
        for a in ites:
            c, x, y = a.args
            if c.__class__ is B:
                r = []
                for z, val in ((x, True), (y, False)):
                    t = _assume_ind(subst(p, {a.id: z}), c, val)
                    if t.__class__ is Poly and (t.lo is None or t.lo <= 0 <= t.hi):
                        break
                    r.append(t.__class__ is not Poly and t == 0)
                else:
                    return bite(c, r[0], r[1])
    return _b('eq', (p,))


def _whole(p, s, n, sl, taken):
    """p = s*(slices 0..n of V) - s*V with the slices in taken -> (V, n)"""
    for k, a in sl.get((s, n), ()):
        r = _whole(p, s, n + a.args[2], sl, taken + ((k, a),))
        if r is not None:
            return r
    if not taken:
        return None
    m = {k: -s * c for k, c in p.m.items()}
    for k, a in taken:
        del m[k]
    V = _mk(m)
    for k, a in taken:
        d = sub(V, a.args[0])
        md = 1 << (a.args[1] + a.args[2])
        if not (d % md == 0 if d.__class__ is not Poly else all(x % md == 0 for x in d.m.values())):
            return None
    return (V, n) if V.__class__ is Poly else None


def eq(a, b):
    return _eq0(sub(a, b))


# ---------------------------------------------------------------- if-then-else
def _assume_ind(t, c, val):
    """t with the indicator of c replaced by val"""
    if t.__class__ is not Poly:
        return t
    if c.kind == 'bit':
        a = c.args[0]
    elif c.kind == 'not':
        return _assume_ind(t, c.args[0], not val)
    else:
        key = ('ind', ('b', c.id))
        a = _atoms.get(key)
        n = c.neg
        if n is not None:
            ka = _atoms.get(('ind', ('b', n.id)))
            if ka is not None:
                t = subst(t, {ka.id: 0 if val else 1})
                if t.__class__ is not Poly:
                    return t
    if a is None:
        return t
    return subst(t, {a.id: 1 if val else 0})


def _top_ite(t, c):
    a, k = single(t)
    return a if a is not None and a.kind == 'ite' and a.args[0] is c else None


def ite(c, a, b):
    if c.__class__ is not B:
        return a if c else b
    if a is b:
        return a
    if c.kind == 'not':
        return ite(c.args[0], b, a)
    a = _assume_ind(a, c, True)
    b = _assume_ind(b, c, False)
    # arm that is a multiple of a polynomial known to vanish
    if c.kind in ('eq', 'feq') and a.__class__ is Poly:
        r = ratio(a, c.args[0])
        if r is not None and c.kind == 'eq':
            a = 0
    x, k = single(a)
    if x is not None and x.kind == 'ite':
        if x.args[0] is c:
            a = scale(x.args[1], k)
        elif c.neg is not None and x.args[0] is c.neg:
            a = scale(x.args[2], k)
    x, k = single(b)
    if x is not None and x.kind == 'ite':
        if x.args[0] is c:
            b = scale(x.args[2], k)
        elif c.neg is not None and x.args[0] is c.neg:
            b = scale(x.args[1], k)
    if a is b:
        return a
    d = sub(a, b)
    if d.__class__ is not Poly:
        return add(b, scale(ind(c), d))
    # common offset out of the ite
    if c.kind == 'le' and c.neg is not None and c.neg.id < c.id:
        c, a, b = c.neg, b, a
    la, ha = rng(a)
    lb, hb = rng(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return _atom('ite', (c, a, b), lo, hi).poly


# ---------------------------------------------------------------- prime field
def sym_c(c):
    c %= FP
    return c - FP if c > FP // 2 else c


def f_small(a):
    """a congruent representative with symmetric coefficients"""
    if a.__class__ is not Poly:
        return sym_c(a)
    m = {}
    for k, c in a.m.items():
        c = sym_c(c)
        if c:
            m[k] = c
    return _mk(m)


def f_unmod(a):
    """replace fmod atoms (canonical reductions) by their arguments: same field element"""
    while a.__class__ is Poly:
        mp = {}
        for k in a.m:
            for i in k:
                if ATOMS[i].kind == 'mod' and ATOMS[i].args[1].__class__ is not Poly and ATOMS[i].args[1] == FP:
                    mp[i] = ATOMS[i].args[0]
        if not mp:
            return a
        a = subst(a, mp)
    return a


def f_canon(a):
    """the representative in [0, FP)"""
    if a.__class__ is not Poly:
        return a % FP
    if a.lo is not None:
        q = a.lo // FP
        if q == a.hi // FP:
            return sub(a, q * FP)
    s = f_small(a)
    if s.__class__ is not Poly:
        return s % FP
    if s is not a and s.lo is not None:
        q = s.lo // FP
        if q == s.hi // FP:
            return sub(s, q * FP)
    u = f_small(f_unmod(a))
    if u.__class__ is not Poly:
        return u % FP
    if u is not s and u.lo is not None:
        q = u.lo // FP
        if q == u.hi // FP:
            return sub(u, q * FP)
    return fmod(s, FP)


def f_add(a, b):
    if a.__class__ is not Poly and b.__class__ is not Poly:
        return (a + b) % FP
    return _f_lim(add(a if a.__class__ is Poly else sym_c(a), b if b.__class__ is Poly else sym_c(b)))


def f_sub(a, b):
    if a.__class__ is not Poly and b.__class__ is not Poly:
        return (a - b) % FP
    return _f_lim(sub(a if a.__class__ is Poly else sym_c(a), b if b.__class__ is Poly else sym_c(b)))


def _f_lim(r):
    if r.__class__ is not Poly:
        return r % FP
    for c in r.m.values():
        if c > FP or c < -FP:
            r = f_small(r)
            return r if r.__class__ is Poly else r % FP
    return r


def f_mul(a, b):
    if a.__class__ is not Poly:
        if b.__class__ is not Poly:
            return a * b % FP
        return _f_lim(scale(b, sym_c(a)))
    if b.__class__ is not Poly:
        return _f_lim(scale(a, sym_c(b)))
    # P * (1/P)
    for x, y in ((a, b), (b, a)):
        s, k = single(y)
        if s is None:
            continue
        if s.kind == 'inv':
            r = ratio(x, s.args[0])
            if r is not None:
                return _f_lim(scale(sub(1, ind(f_eq(s.args[0], 0))), r * k))
        if s.kind == 'ite' and (ratio(x, s.args[0].args[0]) is not None if s.args[0].kind in ('eq', 'feq') else
                                s.args[1].__class__ is not Poly or s.args[2].__class__ is not Poly):
            c, u, v = s.args
            return f_ite(c, f_mul(x, scale(u, k)), f_mul(x, scale(v, k)))
    return _f_lim(mul(a, b))


def f_ite(c, a, b):
    if c.__class__ is B and c.kind in ('eq', 'feq') and a.__class__ is Poly and ratio(a, c.args[0]) is not None:
        a = 0
    r = ite(c, a, b)
    return r


def f_eq(a, b):
    d = sub(a, b)
    if d.__class__ is not Poly:
        return d % FP == 0
    for cand in (d, f_small(d)):
        if cand.__class__ is not Poly:
            return cand % FP == 0
        if cand.lo is not None and cand.lo > -FP and cand.hi < FP:
            return _eq0(cand)
    u = f_small(f_unmod(d))
    if u.__class__ is not Poly:
        return u % FP == 0
    if u.lo is not None and u.lo > -FP and u.hi < FP:
        return _eq0(u)
    x, k = single(u)
    if x is not None and x.kind == 'ite' and (x.args[1].__class__ is not Poly or x.args[2].__class__ is not Poly):
        return bite(x.args[0], f_eq(scale(x.args[1], k), 0), f_eq(scale(x.args[2], k), 0))
    if x is not None and x.kind == 'inv':
        return f_eq(x.args[0], 0)
    k0 = min((k for k in u.m if k))
    if u.m[k0] < 0:
        u = neg(u)
    return _b('feq', (u,))


def f_lt(a, b):
    return lt(f_canon(a), f_canon(b))


def f_inv(a):
    if a.__class__ is not Poly:
        return pow(a, FP - 2, FP)
    x, k = single(a)
    if x is not None and x.kind == 'ite' and k == 1 and (x.args[1].__class__ is not Poly or x.args[2].__class__ is not Poly):
        return ite(x.args[0], f_inv(x.args[1]), f_inv(x.args[2]))
    return _atom('inv', (a,), 0, FP - 1).poly


# ---------------------------------------------------------------- evaluation
def evaluate(terms, env):
    """values of the terms under env: variable name -> int (missing: KeyError)"""
    memo_a = {}
    memo_b = {}

    def ev(t):
        if t.__class__ is Poly:
            s = 0
            for k, c in t.m.items():
                for i in k:
                    v = memo_a.get(i)
                    if v is None:
                        v = eva(ATOMS[i])
                        memo_a[i] = v
                    c = c * v
                    if c == 0:
                        break
                s += c
            return s
        if t.__class__ is B:
            v = memo_b.get(t.id)
            if v is None:
                v = evb(t)
                memo_b[t.id] = v
            return v
        return t

    def eva(a):
        k = a.kind
        x = a.args
        if k == 'var':
            return env[x[0]]
        if k == 'slice':
            return (ev(x[0]) >> x[1]) & ((1 << x[2]) - 1)
        if k == 'ind':
            return 1 if ev(x[0]) else 0
        if k == 'ite':
            return ev(x[1]) if ev(x[0]) else ev(x[2])
        if k == 'div':
            d = ev(x[1])
            return ev(x[0]) // d if d > 0 else 0
        if k == 'mod':
            d = ev(x[1])
            return ev(x[0]) % d if d > 0 else 0
        if k == 'max0':
            return max(ev(x[0]), 0)
        if k == 'inv':
            return pow(ev(x[0]) % FP, FP - 2, FP)
        if k == 'nbits':
            return blen(ev(x[0]))
        if k == 'gcd':
            from math import gcd
            return gcd(ev(x[0]), ev(x[1]))
        raise Unsupported('eval ' + k)

    def evb(b):
        k = b.kind
        x = b.args
        if k == 'le':
            return ev(x[0]) <= 0
        if k == 'eq':
            return ev(x[0]) == 0
        if k == 'feq':
            return ev(x[0]) % FP == 0
        if k == 'bit':
            return ev(x[0].poly) == 1
        if k == 'not':
            return not ev(x[0])
        if k == 'and':
            return all(ev(y) for y in x)
        if k == 'xor':
            return ev(x[0]) != ev(x[1])
        if k == 'ite':
            return ev(x[1]) if ev(x[0]) else ev(x[2])
        raise Unsupported('eval ' + k)
    import sys
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 200000))
    return [ev(t) for t in terms]


# ---------------------------------------------------------------- printing
def show(p, d=3):
    if p.__class__ is not Poly:
        return str(p)
    out = []
    for k, c in p.m.items():
        cs = str(c) if abs(c) < 10**6 else f'{c:#x}'
        out.append('*'.join(([cs] if c != 1 or not k else []) + [showa(ATOMS[i], d - 1) for i in k]))
        if len(out) > 12:
            out.append('...')
            break
    return ' + '.join(out)


def showa(a, d=2):
    if a.kind == 'var':
        return str(a.args[0])
    if d <= 0:
        return f'{a.kind}#{a.id}'
    if a.kind == 'slice':
        return f'({show(a.args[0], d)})[{a.args[1]}+:{a.args[2]}]'
    return a.kind + '(' + ', '.join(show(x, d) if x.__class__ is Poly else showb(x, d) if x.__class__ is B else str(x) for x in a.args) + ')'


def showb(b, d=3):
    if b.__class__ is not B:
        return str(b)
    if d <= 0:
        return f'b#{b.id}'
    if b.kind == 'le':
        return f'({show(b.args[0], d)} <= 0)'
    if b.kind == 'eq':
        return f'({show(b.args[0], d)} == 0)'
    if b.kind == 'feq':
        return f'({show(b.args[0], d)} ==p 0)'
    if b.kind == 'bit':
        return showa(b.args[0], d)
    return b.kind + '(' + ', '.join(showb(x, d - 1) for x in b.args) + ')'


def dump(ts):
    """all nodes below ts, one per line (for debugging)"""
    seen = set()
    out = []

    def go(x):
        if x.__class__ is Poly:
            if ('p', x.id) in seen:
                return
            seen.add(('p', x.id))
            for k in x.m:
                for i in k:
                    ga(ATOMS[i])
            out.append(f'p{x.id} [{x.lo},{x.hi}] = ' + ' + '.join('*'.join([str(c) if abs(c) < 10**6 else hex(c)] + [f'a{i}' for i in k]) for k, c in x.m.items()))
        elif x.__class__ is B:
            if ('b', x.id) in seen:
                return
            seen.add(('b', x.id))
            for y in x.args:
                if y.__class__ is Atom:
                    ga(y)
                else:
                    go(y)
            out.append(f'b{x.id} = {x.kind} ' + ' '.join(nm(y) for y in x.args))

    def ga(a):
        if ('a', a.id) in seen:
            return
        seen.add(('a', a.id))
        for y in a.args:
            go(y)
        out.append(f'a{a.id} [{a.lo},{a.hi}] = {a.kind} ' + ' '.join(nm(y) for y in a.args))

    def nm(y):
        return f'p{y.id}' if y.__class__ is Poly else f'b{y.id}' if y.__class__ is B else f'a{y.id}' if y.__class__ is Atom else str(y)
    for t in ts:
        go(t)
    return '\n'.join(out) + '\n'
