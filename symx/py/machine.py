"""Symbolic machine: memory, forks with state merging, intrinsics and the harness interface."""
import math
import re
import sys
import terms as T
from terms import Poly, B, Unsupported, FP
import llir
import smt

sys.setrecursionlimit(100000)
M64 = (1 << 64) - 1
OM = (1 << 40) - 1


class DeadPath(Exception):
    """the current path ends in a panic (already recorded)"""


class Effect(Exception):
    """an observable action under an unmerged symbolic branch"""


class Infeasible(Exception):
    pass


class Panic:
    def __init__(s, path, msg, loc, fn):
        s.path = path; s.msg = msg; s.loc = loc; s.fn = fn

    def __repr__(s):
        return f'Panic({s.msg} @ {s.loc})'


class Outcome:
    """everything one execution path shows"""

    def __init__(s):
        s.outs = {}          # (name, i) -> term
        s.lcs = {}           # (name, i) -> [(var, coef)]
        s.cons = []          # (A, B, C) each [(var, coef)]
        s.vals = {}          # var -> term or None
        s.naux = 0
        s.nin = 1
        s.inputs = {}        # (name, i) -> term
        s.path = []          # decided branch conditions
        s.pre = []           # assumptions of the harness
        s.choices = []       # branch conditions of forked input bits
        s.panics = []
        s.sha = []           # [(inputs {i: (kind, var, value)}, out vars {i: var})]
        s.died = False
        s.notes = []
        s.order = []         # interleaved trace: ('a', var) / ('c', index) / ...


class Machine:
    Bcls = B
    Unsupported = Unsupported

    def __init__(s, module):
        s.mod = module
        s.mem = [None]
        s.gaddr = {}
        s.faddr = {}
        s.fobj = {}
        s.journal = None      # list while speculating
        s.spec = 0
        s.known = {}
        s.trail = []
        s.pathc = []
        s.budget = 0
        s.compiled = {}
        s.allocas = []
        s.bigobjs = {}
        s.fork_count = 0
        s.merges = 0
        s.effect_sites = set()
        s.tokens = {}
        s.base_mark = None
        s.feasible = None
        s.max_depth = 4000
        s.depth = 0
        s._globcells = {}

    # ------------------------------------------------------------ constants
    def constant(s, mod, p, ty, x):
        """value of constant token x (rest in p) of type ty"""
        k = ty.k
        if k == 'i':
            if x == 'true':
                return 1
            if x == 'false':
                return 0
            if x in ('undef', 'poison', 'zeroinitializer'):
                return 0
            if x == 'ptrtoint':
                p.expect('(')
                t = p.type()
                v = s.constant(mod, p, t, p.next())
                p.expect('to')
                t2 = p.type()
                p.expect(')')
                return v & ((1 << t2.n) - 1)
            if x in ('sub', 'add'):
                p.attrs()
                p.expect('(')
                t = p.type(); a = s.constant(mod, p, t, p.next()); p.expect(',')
                t = p.type(); b = s.constant(mod, p, t, p.next()); p.expect(')')
                return (a - b if x == 'sub' else a + b) & ((1 << ty.n) - 1)
            return int(x) & ((1 << ty.n) - 1)
        if k == 'ptr':
            if x in ('null', 'undef', 'poison'):
                return 0
            if x[0] == '@':
                return s.global_addr(x[1:].strip('"'))
            if x == 'getelementptr':
                p.attrs()
                p.expect('(')
                t = p.type(); p.expect(',')
                t2 = p.type(); a = s.constant(mod, p, t2, p.next())
                first = True
                cur = t
                while p.accept(','):
                    it = p.type()
                    p.attrs()
                    v = s.constant(mod, p, it, p.next())
                    if v >> (it.n - 1):
                        v -= 1 << it.n
                    if first:
                        a += v * cur.size
                        first = False
                    elif cur.k == 'arr':
                        cur = cur.el
                        a += v * cur.size
                    else:
                        a += cur.offs[v]
                        cur = cur.el[v]
                p.expect(')')
                return a & M64
            if x == 'inttoptr':
                p.expect('(')
                t = p.type(); v = s.constant(mod, p, t, p.next()); p.expect('to'); p.type(); p.expect(')')
                return v
        if k in ('double', 'float'):
            if x.startswith('0x'):
                import struct
                return struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
            if x in ('undef', 'poison', 'zeroinitializer'):
                return 0.0
            return float(x)
        if k in ('struct', 'pstruct'):
            if x in ('undef', 'poison', 'zeroinitializer'):
                return tuple(s.zero(e) for e in ty.el)
            if k == 'pstruct':
                p.expect('{')
            out = []
            if not p.accept('}'):
                while True:
                    t = p.type()
                    out.append(s.constant(mod, p, t, p.next()))
                    if p.accept('}'):
                        break
                    p.expect(',')
            if k == 'pstruct':
                p.expect('>')
            return tuple(out)
        if k in ('arr', 'vec'):
            if x in ('undef', 'poison', 'zeroinitializer'):
                return (s.zero(ty.el),) * ty.n
            if x[0] == 'c':
                return tuple(llir.cbytes(x))
            if x in ('[', '<'):
                out = []
                cl = ']' if x == '[' else '>'
                if not p.accept(cl):
                    while True:
                        t = p.type()
                        out.append(s.constant(mod, p, t, p.next()))
                        if p.accept(cl):
                            break
                        p.expect(',')
                return tuple(out)
            if x == 'splat':
                p.expect('(')
                t = p.type()
                v = s.constant(mod, p, t, p.next())
                p.expect(')')
                return (v,) * ty.n
        raise ValueError(f'constant {x} of {k}')

    def zero(s, ty):
        if ty.k in ('struct', 'pstruct'):
            return tuple(s.zero(e) for e in ty.el)
        if ty.k in ('arr', 'vec'):
            return (s.zero(ty.el),) * ty.n
        if ty.k in ('double', 'float'):
            return 0.0
        return 0

    def new_obj(s):
        s.mem.append({})
        return len(s.mem) - 1

    def global_addr(s, nm):
        a = s.gaddr.get(nm)
        if a is not None:
            return a
        oid = s.new_obj()
        a = oid << 40
        s.gaddr[nm] = a
        f = s.mod.functions.get(nm)
        if f is not None:
            s.fobj[a] = f
            return a
        g = s.mod.globals.get(nm)
        if g is None:
            s.fobj[a] = nm          # external function
            return a
        m = re.search(r'(?:^|\s)(?:constant|global) ', g)
        body = g[m.end():]
        # cut trailing ", align .." at top level: parse type then value
        p = llir.P(llir.tokenize(cut_global(body)), s.mod)
        ty = p.type()
        if p.peek() is None:
            return a                # external global
        v = s.constant(s.mod, p, ty, p.next())
        cells = s.mem[oid]
        s.flat(cells, 0, ty, v)
        return a

    def flat(s, cells, off, ty, v):
        if ty.k in ('struct', 'pstruct'):
            for e, o, x in zip(ty.el, ty.offs, v):
                s.flat(cells, off + o, e, x)
        elif ty.k in ('arr', 'vec'):
            es = ty.el.size
            for i, x in enumerate(v):
                s.flat(cells, off + i * es, ty.el, x)
        else:
            cells[off] = (ty.ssize, v)

    # ------------------------------------------------------------ memory
    def alloca(s, size):
        s.mem.append({})
        oid = len(s.mem) - 1
        s.allocas.append(oid)
        return oid << 40

    def malloc(s, size, align=8, zero=False):
        if size.__class__ is not int:
            n = s.concretize(size)
            size = T.rng(size)[1] if n is None else n     # objects are not bounded here
        if size > (1 << 28):
            raise Unsupported('allocation too large')
        s.mem.append({})
        oid = len(s.mem) - 1
        if zero:
            c = s.mem[oid]
            for o in range(0, size, 8):
                c[o] = (min(8, size - o), 0)
        return oid << 40

    def free(s, p):
        if s.spec == 0 and p.__class__ is int:
            s.mem[p >> 40] = None
        return None

    def realloc(s, p, old, align, new):
        q = s.malloc(new)
        if old is not None and old.__class__ is not int:
            old = s.concretize(old)
        if new.__class__ is not int:
            new = s.concretize(new)
        if old is None and new is None:
            raise Unsupported('symbolic reallocation')
        s.memcpy(q, p, min(old, new) if old is not None and new is not None else old if new is None else new)
        return q

    def cell_store(s, cells, off, size, v):
        """write one cell, splitting whatever it overlaps; cells of a live object"""
        j = s.journal
        c = cells.get(off)
        if c is not None and c[0] == size:
            if j is not None:
                j.append((cells, off, c))
            cells[off] = (size, v)
            return
        # remove overlaps
        for o in range(off - 15, off + size):
            c = cells.get(o)
            if c is None or o + c[0] <= off:
                continue
            if j is not None:
                j.append((cells, o, c))
            del cells[o]
            e = o + c[0]
            if o < off:
                s.put_part(cells, o, c, o, off)
            if e > off + size:
                s.put_part(cells, o, c, off + size, e)
        if j is not None:
            j.append((cells, off, cells.get(off)))
        cells[off] = (size, v)

    def put_part(s, cells, o, c, a, b):
        """keep bytes [a,b) of cell c at o"""
        if c[1].__class__ not in (int, Poly):
            return
        v = part(c[1], a - o, b - a)
        if s.journal is not None:
            s.journal.append((cells, a, cells.get(a)))
        cells[a] = (b - a, v)

    def store(s, a, size, v):
        if a.__class__ is not int:
            return s.store_sym(a, size, v)
        cells = s.mem[a >> 40]
        if cells is None:
            raise Unsupported('store through invalid pointer')
        off = a & OM
        c = cells.get(off)
        if c is not None and c[0] == size:
            if s.journal is not None:
                s.journal.append((cells, off, c))
            cells[off] = (size, v)
            return
        s.cell_store(cells, off, size, v)

    def load(s, a, size):
        if a.__class__ is not int:
            return s.load_sym(a, size)
        cells = s.mem[a >> 40]
        if cells is None:
            raise Unsupported('load through invalid pointer %x' % a)
        off = a & OM
        c = cells.get(off)
        if c is not None:
            if c[0] == size:
                return c[1]
            if c[0] > size:
                return part(c[1], 0, size)
        # assemble
        parts = []
        o = off
        end = off + size
        undef = False
        while o < end:
            c = cells.get(o)
            if c is None:
                for b in range(1, 16):
                    c = cells.get(o - b)
                    if c is not None:
                        if c[0] > b:
                            n = min(c[0] - b, end - o)
                            parts.append((o - off, part(c[1], b, n)))
                            o += n
                            break
                        c = None
                if c is None:
                    undef = True   # uninitialised byte: any value; choose 0
                    o += 1
                continue
            n = min(c[0], end - o)
            parts.append((o - off, c[1] if n == c[0] else part(c[1], 0, n)))
            o += n
        r = 0
        for sh, v in parts:
            if v.__class__ is B:
                v = T.ind(v)
            if v.__class__ is float:
                raise Unsupported('bytes of a float')
            r = T.add(r, T.scale(v, 1 << (8 * sh)))
        return r

    def load_i1(s, a):
        v = s.load(a, 1)
        return s.trunc(v, 1)

    def load_fp(s, a, size):
        v = s.load(a, size)
        if v.__class__ is int:
            import struct
            return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
        return v

    def load_vec(s, a, n, es):
        return tuple(s.load(s.add(a, i * es, 64), es) for i in range(n))

    def store_vec(s, a, v, es):
        for i, x in enumerate(v):
            s.store(s.add(a, i * es, 64), es, x)

    def store_agg(s, a, v, ty):
        cells = {}
        s.flat(cells, 0, ty, v)
        for o, (n, x) in cells.items():
            s.store(s.add(a, o, 64), n, x)

    def ptr_cases(s, a, limit=600):
        """[(cond, concrete address)] exhaustive for a symbolic pointer"""
        out = []
        if s.known and a.__class__ is Poly:
            for at in smt.collect([a]):
                if at.kind in ('ite', 'ind') and at.args[0].id in s.known:
                    a = smt.deep_subst(a, {}, known=s.known)
                    break

        def rec(t, cond):
            if cond is False or len(out) > limit:
                return
            if t.__class__ is not Poly:
                out.append((cond, t & M64))
                return
            # pick an atom to split on
            for k, c in t.m.items():
                if k:
                    at = T.ATOMS[k[0]]
                    break
            for k, c in t.m.items():
                if k and T.ATOMS[k[0]].kind in ('ite', 'ind'):
                    at = T.ATOMS[k[0]]
                    break
            if at.kind == 'ite':
                c = s.simp(at.args[0])
                rec(T.subst(t, {at.id: at.args[1]}), T.band(cond, c))
                rec(T.subst(t, {at.id: at.args[2]}), T.band(cond, T.bnot(c)))
            elif at.lo == 0 and at.hi == 1:
                b = s.simp(T.bit_bool(at.poly))
                rec(T.subst(t, {at.id: 1}), T.band(cond, b))
                rec(T.subst(t, {at.id: 0}), T.band(cond, T.bnot(b)))
            else:
                if at.hi - at.lo > 300:
                    raise Unsupported('symbolic address range too large')
                for v in range(at.lo, at.hi + 1):
                    rec(T.subst(t, {at.id: v}), T.band(cond, s.simp(T.eq(at.poly, v))))
        rec(a, True)
        if len(out) > limit:
            raise Unsupported('too many pointer targets')
        m = {}
        for c, p in out:
            m[p] = T.bor(m[p], c) if p in m else c
        return [(c, p) for p, c in m.items()]

    def load_sym(s, a, size):
        cases = s.ptr_cases(a)
        r = None
        for c, p in cases:
            if s.mem[p >> 40] is None:
                continue   # cannot be dereferenced on a valid execution (index checks precede)
            v = s.load(p, size)
            r = v if r is None else s.merge_val(c, v, r)
        if r is None:
            raise Unsupported('load through symbolic pointer')
        return r

    def store_sym(s, a, size, v):
        for c, p in s.ptr_cases(a):
            if s.mem[p >> 40] is None:
                continue
            old = s.load(p, size)
            s.store(p, size, s.merge_val(c, v, old))

    def memcpy(s, d, a, n):
        if n.__class__ is not int:
            n2 = s.concretize(n)
            if n2 is None:
                raise Unsupported('symbolic memcpy length')
            n = n2
        if n == 0:
            return
        if d.__class__ is not int or a.__class__ is not int:
            return s.memcpy_sym(d, a, n)
        src = s.mem[a >> 40]
        dst = s.mem[d >> 40]
        if src is None or dst is None:
            raise Unsupported('memcpy through invalid pointer')
        so = a & OM
        do = d & OM
        got = []
        if n <= 4 * len(src) + 64:
            o = so
            end = so + n
            while o < end:
                c = src.get(o)
                if c is None:
                    if o == so:
                        for b in range(1, 16):
                            c = src.get(o - b)
                            if c is not None and c[0] > b:
                                m = min(c[0] - b, end - o)
                                got.append((0, m, part(c[1], b, m)))
                                o += m
                                break
                            c = None
                        if c is not None:
                            continue
                    o += 1
                    continue
                if o + c[0] > end:
                    got.append((o - so, end - o, part(c[1], 0, end - o)))
                    break
                got.append((o - so, c[0], c[1]))
                o += c[0]
        else:
            for o, c in src.items():
                if o + c[0] <= so or o >= so + n:
                    continue
                x, y = max(o, so), min(o + c[0], so + n)
                got.append((x - so, y - x, c[1] if y - x == c[0] else part(c[1], x - o, y - x)))
        if not dst:
            j = s.journal
            for o, m, v in got:
                if j is not None:
                    j.append((dst, do + o, None))
                dst[do + o] = (m, v)
        else:
            for o, m, v in got:
                s.cell_store(dst, do + o, m, v)

    def memcpy_sym(s, d, a, n):
        vals = []
        o = 0
        # word-wise where possible
        while o < n:
            m = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
            vals.append((o, m, s.load(s.add(a, o, 64), m)))
            o += m
        for o, m, v in vals:
            s.store(s.add(d, o, 64), m, v)

    def memset(s, d, v, n):
        if n.__class__ is not int:
            n = s.concretize(n)
        if n is None:
            raise Unsupported('symbolic memset length')
        if v.__class__ is not int:
            for i in range(n):
                s.store(s.add(d, i, 64), 1, v)
            return
        i = 0
        while i < n:
            m = 8 if n - i >= 8 else 1
            s.store(s.add(d, i, 64), m, int.from_bytes(bytes([v]) * m, 'little'))
            i += m

    def memcmp_eq(s, a, b, n):
        """0 when equal (bcmp)"""
        if n.__class__ is not int:
            n = s.concretize(n)
        if n is None:
            raise Unsupported('symbolic bcmp length')
        r = True
        i = 0
        while i < n:
            m = 8 if n - i >= 8 else 1
            x, y = s.load(s.add(a, i, 64), m), s.load(s.add(b, i, 64), m)
            r = T.band(r, T.eq(x, y))
            if r is False:
                return 1
            i += m
        return 0 if r is True else T.ind(T.bnot(r))

    def rd_str(s, p, n):
        return bytes(s.load(p + i, 1) for i in range(n))

    def concretize(s, t):
        """the single possible value of t on this path, if syntactically determined"""
        if t.__class__ is Poly and s.known:
            for at in smt.collect([t]):
                if at.kind in ('ite', 'ind') and at.args[0].id in s.known:
                    t = smt.deep_subst(t, {}, known=s.known)
                    break
        return t if t.__class__ is int else None

    # ------------------------------------------------------------ arithmetic on symbolic values
    def add(s, a, b, n):
        return T.wrap(T.add(iv(a), iv(b)), n)

    def mul(s, a, b, n):
        return T.wrap(T.mul(iv(a), iv(b)), n)

    def binop(s, op, a, b, n):
        a = iv(a); b = iv(b)
        ca = a.__class__ is not Poly
        cb = b.__class__ is not Poly
        if op == 'add':
            return T.wrap(T.add(a, b), n)
        if op == 'sub':
            return T.wrap(T.sub(a, b), n)
        if op == 'mul':
            return T.wrap(T.mul(a, b), n)
        if op == 'shl':
            if cb:
                if b >= n:
                    return 0
                return T.wrap(T.scale(a, 1 << b), n)
            return s.enum_op(b, n, lambda k: T.wrap(T.scale(a, 1 << k), n) if k < n else 0)
        if op == 'lshr':
            if cb:
                return T.shr(a, b) if b < n else 0
            return s.enum_op(b, n, lambda k: T.shr(a, k) if k < n else 0)
        if op == 'ashr':
            if not cb:
                raise Unsupported('ashr by symbolic amount')
            sg = T.to_signed(a, n)
            return T.wrap(T.fdiv(sg, 1 << b), n)
        if op == 'udiv':
            if cb and b == 0:
                raise Unsupported('udiv by zero')
            return T.fdiv(a, b)
        if op == 'urem':
            if cb and b == 0:
                raise Unsupported('urem by zero')
            return T.fmod(a, b)
        if op in ('sdiv', 'srem'):
            x, y = T.to_signed(a, n), T.to_signed(b, n)
            l, h = T.rng(y)
            if l <= 0:
                raise Unsupported('signed division')
            return T.wrap(T.tdiv(x, y) if op == 'sdiv' else T.trem(x, y), n)
        if op == 'and':
            if ca and cb:
                return a & b
            if ca:
                a, b = b, a
                ca, cb = cb, ca
            if cb:
                return band_c(a, b, n)
            if a is b:
                return a
            return s.bitwise(a, b, n, T.band)
        if op == 'or':
            if ca and cb:
                return a | b
            if ca:
                a, b = b, a
                ca, cb = cb, ca
            if cb:
                # a | m = m + (a & ~m)
                return T.add(b, band_c(a, ((1 << n) - 1) & ~b, n))
            if a is b:
                return a
            if disjoint(a, b):
                return T.add(a, b)
            return s.bitwise(a, b, n, T.bor)
        if op == 'xor':
            if ca and cb:
                return a ^ b
            if ca:
                a, b = b, a
                ca, cb = cb, ca
            if cb:
                # a ^ m = (a & ~m) + m - (a & m)
                if b == (1 << n) - 1:
                    return T.sub(b, a)
                return T.add(T.sub(b, band_c(a, b, n)), band_c(a, ((1 << n) - 1) & ~b, n))
            if a is b:
                return 0
            return s.bitwise(a, b, n, T.bxor)
        raise Unsupported('binop ' + op)

    def enum_op(s, b, n, f):
        """f over the values of a small-range shift amount"""
        b = T.wrap(b, 64)
        lo, hi = T.rng(b)
        if hi - lo > 256:
            raise Unsupported('symbolic shift amount')
        r = f(hi)
        for k in range(hi - 1, lo - 1, -1):
            r = T.ite(T.le(b, k), f(k), r)
        return r

    def bitwise(s, a, b, n, f):
        la = max(T.blen(T.rng(a)[1]), T.blen(T.rng(b)[1]))
        r = 0
        for i in range(min(n, la)):
            x = T.bit_bool(T.slice_(a, i, 1))
            y = T.bit_bool(T.slice_(b, i, 1))
            r = T.add(r, T.scale(T.ind(f(x, y)), 1 << i))
        return r

    def bop(s, op, a, b):
        if a.__class__ is int and b.__class__ is int:
            return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
        a = bv(a); b = bv(b)
        r = {'and': T.band, 'mul': T.band, 'or': T.bor, 'xor': T.bxor, 'add': T.bxor, 'sub': T.bxor}[op](a, b)
        return r if r.__class__ is B else int(r)

    def icmp(s, pr, a, b, n):
        if n == 1:
            a = bv(a); b = bv(b)
            if pr == 'eq':
                r = T.bnot(T.bxor(a, b))
            elif pr == 'ne':
                r = T.bxor(a, b)
            elif pr in ('ult', 'sgt'):
                r = T.band(T.bnot(a), b)
            elif pr in ('ugt', 'slt'):
                r = T.band(a, T.bnot(b))
            elif pr in ('ule', 'sge'):
                r = T.bor(T.bnot(a), b)
            else:
                r = T.bor(a, T.bnot(b))
            return r if r.__class__ is B else int(r)
        a = iv(a); b = iv(b)
        if pr[0] == 's':
            a = T.to_signed(a, n)
            b = T.to_signed(b, n)
            pr = 'u' + pr[1:]
        if pr == 'eq':
            r = T.eq(a, b)
        elif pr == 'ne':
            r = T.bnot(T.eq(a, b))
        elif pr == 'ult':
            r = T.lt(a, b)
        elif pr == 'ule':
            r = T.le(a, b)
        elif pr == 'ugt':
            r = T.lt(b, a)
        else:
            r = T.le(b, a)
        return r if r.__class__ is B else int(r)

    def vicmp(s, pr, a, b):
        return tuple(int(x == y) if pr == 'eq' and x.__class__ is int is y.__class__ else s.icmp(pr, x, y, 8) for x, y in zip(a, b))

    def vop(s, op, a, b, n):
        if n == 1:
            return tuple(s.bop(op, x, y) for x, y in zip(a, b))
        return tuple(s.binop(op, x, y, n) for x, y in zip(a, b))

    def zext1(s, v):
        if v.__class__ is B:
            return T.ind(v)
        return v

    def sext(s, v, n, m):
        if n == 1:
            v = s.zext1(v)
        if v.__class__ is int:
            return v | (((1 << m) - 1) ^ ((1 << n) - 1)) if v >> (n - 1) else v
        return T.wrap(T.to_signed(v, n), m)

    def trunc(s, v, n):
        if v.__class__ is int:
            return v & ((1 << n) - 1)
        if v.__class__ is B:
            return v
        r = T.wrap(v, n)
        if n == 1:
            r = T.bit_bool(r)
            return r if r.__class__ is B else int(r)
        return r

    def bitcast(s, v, t1, t2):
        if t1.k == 'vec' and t2.k == 'i':
            r = 0
            w = t1.el.n
            for i, x in enumerate(v):
                r = T.add(r, T.scale(iv(x), 1 << (w * i)))
            return r
        if t1.k == 'i' and t2.k == 'double':
            import struct
            if v.__class__ is not int:
                raise Unsupported('symbolic float bits')
            return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
        if t1.k == 'double' and t2.k == 'i':
            import struct
            return int.from_bytes(struct.pack('<d', v), 'little')
        if t1.k == 'i' and t2.k == 'vec':
            w = t2.el.n
            return tuple(T.slice_(iv(v), w * i, w) for i in range(t2.n))
        return v

    def fpconv(s, op, v, t1, t2):
        if v.__class__ not in (int, float):
            raise Unsupported('symbolic float')
        if op == 'uitofp':
            return float(v)
        if op == 'sitofp':
            return float(T.to_signed(v, t1.n))
        if op in ('fptoui', 'fptosi'):
            return int(v) & ((1 << t2.n) - 1)
        return v

    def fop(s, op, a, b):
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            return a * b
        return a / b if b else math.inf * (1 if a > 0 else -1) if a else math.nan

    def fcmp(s, pr, a, b):
        if a != a or b != b:
            return 1 if pr[0] == 'u' else 0
        d = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'rd': True}
        if pr == 'uno':
            return 0
        return int(d[pr[1:]])

    def select(s, c, a, b):
        c = s.simp(bv(c))
        if c.__class__ is not B:
            return a if c else b
        return s.merge_val(c, a, b)

    def insertvalue(s, a, b, idx, ty):
        if not isinstance(a, tuple):
            a = s.zero(ty)
        l = list(a)
        if len(idx) == 1:
            l[idx[0]] = b
        else:
            l[idx[0]] = s.insertvalue(l[idx[0]], b, idx[1:], ty.el[idx[0]] if ty.k != 'arr' else ty.el)
        return tuple(l)

    def insertelement(s, a, b, i, n):
        if not isinstance(a, tuple):
            a = (0,) * n
        l = list(a)
        l[i] = b
        return tuple(l)

    def shuffle(s, a, b, m, n):
        if not isinstance(a, tuple):
            a = (0,) * n
        if not isinstance(b, tuple):
            b = (0,) * n
        ab = a + b
        return tuple(ab[i] for i in m)

    def atomicrmw(s, o, a, b, size):
        old = s.load(a, size)
        if o == 'xchg':
            v = b
        elif o in ('add', 'sub', 'and', 'or', 'xor'):
            v = s.binop(o, old, b, size * 8)
        else:
            raise Unsupported('atomicrmw ' + o)
        s.store(a, size, v)
        return old

    def cmpxchg(s, a, b, c, size):
        old = s.load(a, size)
        if old.__class__ is not int or b.__class__ is not int:
            raise Unsupported('symbolic cmpxchg')
        if old == b:
            s.store(a, size, c)
            return (old, 1)
        return (old, 0)

    # ------------------------------------------------------------ intrinsics
    def intrinsic(s, nm, a, tys, rty):
        n = nm[5:]
        if n.startswith(('lifetime', 'experimental.noalias', 'assume', 'dbg', 'x86.sse2.pause', 'prefetch')):
            return ''
        if n.startswith(('memcpy', 'memmove')):
            return f'X.memcpy({a[0]}, {a[1]}, {a[2]})'
        if n.startswith('memset'):
            return f'X.memset({a[0]}, {a[1]}, {a[2]})'
        if n.startswith('is.constant'):
            return '0'
        if n.startswith('threadlocal.address'):
            return a[0]
        if n.startswith('expect'):
            return a[0]
        if n.startswith('trap'):
            return 'X.panic("trap", [], None)'
        bits = tys[0].n if tys and tys[0].k == 'i' else 0
        m = re.match(r'(umax|umin|smax|smin|fshl|fshr|ucmp|scmp|usub\.sat|uadd\.sat|ssub\.sat|sadd\.sat|(?:u|s)(?:add|sub|mul)\.with\.overflow|'
                     r'ctpop|cttz|ctlz|bswap|bitreverse|abs|fptoui\.sat|fptosi\.sat|ceil|floor|log2|fabs|trunc|round|pow|exp2|vector\.reduce\.\w+)', n)
        if m:
            w = rty.n if rty.k == 'i' else 0
            return f'X.intr({m.group(1)!r}, {bits}, {w}, [{", ".join(a)}])'
        return None

    def intr(s, op, n, w, a):
        conc = all(x.__class__ in (int, float) for x in a)
        M = (1 << n) - 1
        if op in ('ceil', 'floor', 'log2', 'fabs', 'trunc', 'round', 'exp2'):
            if not conc:
                raise Unsupported('symbolic float')
            x = a[0]
            if op == 'log2':
                return math.log2(x) if x > 0 else -math.inf
            if op in ('ceil', 'floor') and (math.isinf(x) or math.isnan(x)):
                return x
            return {'ceil': lambda: float(math.ceil(x)), 'floor': lambda: float(math.floor(x)), 'fabs': lambda: abs(x), 'trunc': lambda: float(int(x)),
                    'exp2': lambda: 2.0 ** x, 'round': lambda: float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)}[op]()
        if op in ('fptoui.sat', 'fptosi.sat'):
            x = a[0]
            if x != x:
                return 0
            lo, hi = (0, (1 << w) - 1) if op == 'fptoui.sat' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            x = lo if x <= lo else hi if x >= hi else int(x)
            return x & ((1 << w) - 1)
        a = [iv(x) for x in a]
        if op in ('umax', 'umin', 'smax', 'smin'):
            x, y = a
            if n == 1:
                return s.bop('or' if op in ('umax', 'smin') else 'and', x, y)
            c = bv(s.icmp('ult' if op[0] == 'u' else 'slt', x, y, n))
            return T.ite(c, x, y) if op.endswith('min') else T.ite(c, y, x)
        if op in ('fshl', 'fshr'):
            x, y, k = a
            if k.__class__ is not int:
                raise Unsupported('symbolic funnel shift')
            k %= n
            if op == 'fshr':
                k = (n - k) % n
                if a[2] % n == 0:
                    return y
            if k == 0:
                return x
            return T.add(T.scale(T.slice_(x, 0, n - k), 1 << k), T.shr(y, n - k))
        if op in ('ucmp', 'scmp'):
            x, y = a
            if op == 'scmp':
                x, y = T.to_signed(x, n), T.to_signed(y, n)
            l = T.lt(x, y)
            e = T.eq(x, y)
            return T.ite(l, (1 << w) - 1, T.ite(e, 0, 1))
        if op == 'usub.sat':
            x, y = a
            return T.ite(T.le(y, x), T.wrap(T.sub(x, y), n), 0) if not (T.rng(T.sub(x, y))[0] >= 0) else T.sub(x, y)
        if op == 'uadd.sat':
            r = T.add(a[0], a[1])
            return T.ite(T.le(r, M), T.wrap(r, n), M)
        if op.endswith('.with.overflow'):
            x, y = a
            sg = op[0] == 's'
            if sg:
                x, y = T.to_signed(x, n), T.to_signed(y, n)
            f = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op[1:4]]
            r = f(x, y)
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, M)
            ov = T.bor(T.lt(r, lo), T.lt(hi, r))
            return (T.wrap(r, n), ov if ov.__class__ is B else int(ov))
        x = a[0]
        if op == 'abs':
            x = T.to_signed(x, n)
            return T.wrap(T.ite(T.lt(x, 0), T.neg(x), x), n)
        if op == 'bswap':
            r = 0
            for i in range(n // 8):
                r = T.add(r, T.scale(T.slice_(x, 8 * i, 8), 1 << (n - 8 - 8 * i)))
            return r
        if op == 'bitreverse':
            r = 0
            for i in range(n):
                r = T.add(r, T.scale(T.slice_(x, i, 1), 1 << (n - 1 - i)))
            return r
        if op == 'ctpop':
            if x.__class__ is int:
                return bin(x).count('1')
            r = 0
            for i in range(T.blen(x.hi)):
                r = T.add(r, T.slice_(x, i, 1))
            return r
        if op == 'cttz':
            if x.__class__ is int:
                return n if x == 0 else (x & -x).bit_length() - 1
            r = n
            for i in range(n - 1, -1, -1):
                r = T.ite(T.bit_bool(T.slice_(x, i, 1)), i, r)
            return r
        if op == 'ctlz':
            if x.__class__ is int:
                return n - x.bit_length()
            r = n
            for i in range(n):
                r = T.ite(T.bit_bool(T.slice_(x, i, 1)), n - 1 - i, r)
            return r
        raise Unsupported('intrinsic ' + op)

    # ------------------------------------------------------------ calls and control
    def extern(s, nm):
        e = s.compiled.get(nm, 0)
        if e != 0:
            return e
        e = None
        if nm.startswith('sx_'):
            e = getattr(s, nm)
        elif nm in EXT:
            e = getattr(s, EXT[nm])
        elif '___rust_alloc_zeroed' in nm:
            e = lambda n, a: s.malloc(n, a, True)
        elif '___rust_alloc_error_handler' in nm:
            e = None
        elif '___rust_alloc' in nm:
            e = lambda n, a: s.malloc(n, a)
        elif '___rust_dealloc' in nm:
            e = lambda p, n, a: s.free(p)
        elif '___rust_realloc' in nm:
            e = lambda p, old, a, n: s.realloc(p, old, a, n)
        elif '___rust_no_alloc_shim' in nm:
            e = lambda *a: None
        elif re.search(r'5stdio(6_{1,2}print|7_{1,2}eprint)$', nm):
            e = lambda *a: None
        s.compiled[nm] = e
        return e

    def x_bcmp(s, a, b, n):
        return s.memcmp_eq(a, b, n)

    def x_memcmp(s, a, b, n):
        r = 0
        for i in range(n - 1, -1, -1):
            x, y = s.load(s.add(a, i, 64), 1), s.load(s.add(b, i, 64), 1)
            if x.__class__ is int and y.__class__ is int:
                if x != y:
                    r = 0xffffffff if x < y else 1
            else:
                r = T.ite(T.lt(x, y), 0xffffffff, T.ite(T.eq(x, y), r, 1))
        return r

    def x_malloc(s, n):
        return s.malloc(n)

    def x_calloc(s, a, b):
        return s.malloc(a * b, 8, True)

    def x_realloc(s, p, n):
        q = s.malloc(n)
        cells = s.mem[p >> 40]
        if cells:
            s.memcpy(q, p, min(n, max(o + c[0] for o, c in cells.items())))
        return q

    def x_free(s, p):
        return s.free(p)

    def x_posix_memalign(s, pp, al, n):
        s.store(pp, 8, s.malloc(n))
        return 0

    def x_write(s, fd, p, n):
        return n

    def x_strlen(s, p):
        n = 0
        while s.load(p + n, 1) != 0:
            n += 1
        return n

    def x_log2(s, x):
        return math.log2(x) if x > 0 else -math.inf

    def call_ptr(s, p, args):
        if p.__class__ is not int:
            raise Unsupported('call through symbolic pointer')
        f = s.fobj.get(p)
        if f is None:
            raise Unsupported('call through invalid pointer')
        if isinstance(f, str):
            e = s.extern(f)
            if e is None:
                raise Unsupported('external ' + f)
            return e(*args)
        e = s.extern(f.name)
        if e is not None:
            return e(*args)
        return s.call(f, args)

    def call(s, f, args):
        if not f.ready:
            llir.compile_function(f, s)
        s.depth += 1
        if s.depth > s.max_depth:
            raise Unsupported('call depth')
        R = [None] * f.nregs
        R[:len(args)] = args
        al = s.allocas
        mark = len(al)
        try:
            s.run(f, R, 0, None)
        finally:
            s.depth -= 1
            if len(al) > mark:
                mem = s.mem
                if s.spec == 0:
                    for o in al[mark:]:
                        mem[o] = None
                del al[mark:]
        return R[-1]

    def run(s, f, R, cur, stop):
        """run from block cur until a return (None) or until block stop is entered (its phis done: True)"""
        blocks = f.blocks
        edges = f.edges
        hit = f.hit
        while True:
            hit[cur] = 1
            nxt = blocks[cur](R)
            if nxt.__class__ is int:
                if nxt < 0:
                    return None
            else:
                nxt = s.branch(f, R, cur, nxt, stop)
                if nxt is None:
                    return None
                if nxt is True:
                    return True
                cur = nxt
                continue
            e = edges.get((cur, nxt))
            if e is not None:
                e(R)
            if nxt == stop:
                return True
            cur = nxt
            s.budget -= 1
            if s.budget <= 0:
                raise Unsupported('step budget exhausted')

    def brc(s, c, t, f):
        c = bv(c)
        if c.__class__ is not B:
            return t if c else f
        return ((c, t), (T.bnot(c), f))

    def switch(s, v, cases, dflt):
        if v.__class__ is B:
            v = T.ind(v)
        arms = []
        by = {}
        for k, t in cases.items():
            c = T.eq(v, k)
            by[t] = T.bor(by[t], c) if t in by else c
        rest = True
        for t, c in by.items():
            rest = T.band(rest, T.bnot(c))
        by[dflt] = T.bor(by[dflt], rest) if dflt in by else rest
        arms = [(c, t) for t, c in by.items() if c is not False]
        if len(arms) == 1:
            return arms[0][1]
        return tuple(arms)

    # known facts of the current path
    def simp(s, c):
        if c.__class__ is not B:
            return c
        k = s.known.get(c.id)
        if k is not None:
            return k
        kind = c.kind
        if kind == 'not':
            return T.bnot(s.simp(c.args[0]))
        if kind == 'and' and s.known:
            ch = False
            out = []
            for x in c.args:
                y = s.simp(x)
                if y is False:
                    return False
                if y is not x:
                    ch = True
                out.append(y)
            if ch:
                return T.band(*out)
        if kind == 'ite' and s.known:
            x = s.simp(c.args[0])
            if x.__class__ is not B:
                return s.simp(c.args[1] if x else c.args[2])
        if kind == 'eq' and s.known:
            p = c.args[0]
            mp = None
            for k in p.m:
                for i in k:
                    at = T.ATOMS[i]
                    if at.kind == 'ite' or at.kind == 'ind':
                        v = s.known.get(at.args[0].id)
                        if v is not None:
                            mp = mp or {}
                            mp[i] = (at.args[1] if v else at.args[2]) if at.kind == 'ite' else int(v)
                    elif at.kind == 'slice' or at.kind == 'var':
                        if at.lo == 0 and at.hi == 1:
                            b = T._bools.get(('bit', ('Atom', i)))
                            v = s.known.get(b.id) if b is not None else None
                            if v is not None:
                                mp = mp or {}
                                mp[i] = int(v)
            if mp:
                return s.simp(T._eq0(T.subst(p, mp)))
        return c

    def learn(s, c, val=True):
        if c.__class__ is not B:
            return
        if c.id in s.known:
            return
        s.known[c.id] = val
        s.trail.append(c.id)
        n = T.bnot(c)
        if n.__class__ is B and n.id not in s.known:
            s.known[n.id] = not val
            s.trail.append(n.id)
        if c.kind == 'not':
            s.learn(c.args[0], not val)
        elif c.kind == 'and' and val:
            for x in c.args:
                s.learn(x, True)
        elif c.kind == 'not' or (n.__class__ is B and n.kind == 'and' and not val):
            if n.kind == 'and':
                for x in n.args:
                    s.learn(x, True)

    def unlearn(s, mark):
        t = s.trail
        while len(t) > mark:
            del s.known[t.pop()]

    def branch(s, f, R, cur, arms, stop):
        live = []
        for c, t in arms:
            c2 = s.simp(c)
            if c2 is False:
                continue
            if c2 is True:
                live = [(True, t)]
                break
            live.append((c2, t))
        if len(live) > 1 and s.known:
            live = s.prune(live)
        if not live:
            raise DeadPath()
        if len(live) == 1:
            t = live[0][1]
            s.learn(live[0][0])
            e = f.edges.get((cur, t))
            if e is not None:
                e(R)
            return True if t == stop else t
        if f.ipdom is None:
            llir.postdom(f)
        site = (f, cur)
        if s.spec == 0 and (s.nomerge or site in s.effect_sites):
            return s.decide(f, R, cur, live, stop)
        s.fork_count += 1
        join = f.ipdom.get(cur, -2)
        if join == -1:
            join = None
        if join == -2:
            # no arm can return normally
            join = None
        s.spec += 1
        outer = s.journal
        amark = len(s.allocas)
        res = []
        if s.spec > 900:
            raise Unsupported('fork depth')
        pm = len(s.pathc)
        depth = s.depth
        panics_mark = len(s.out.panics)
        try:
            for c, t in live:
                mark = len(s.trail)
                s.learn(c)
                s.pathc.append(c)
                s.journal = []
                R2 = list(R)
                ok = True
                try:
                    e = f.edges.get((cur, t))
                    if e is not None:
                        e(R2)
                    if t != join or join is None:
                        s.run(f, R2, t, join)
                except DeadPath:
                    ok = False
                    s.depth = depth
                finally:
                    # final values of touched cells, then undo
                    j = s.journal
                    fin = {}
                    if ok:
                        for cells, off, old in j:
                            k = (id(cells), off)
                            if k not in fin:
                                fin[k] = (cells, off, cells.get(off))
                    for cells, off, old in reversed(j):
                        if old is None:
                            cells.pop(off, None)
                        else:
                            cells[off] = old
                    s.unlearn(mark)
                    del s.pathc[pm:]
                if ok:
                    res.append((c, t, R2, fin))
        except (Effect, Unsupported) as ex:
            if ex.__class__ is not Effect and (s.nomerge or 'budget' in str(ex)):
                raise
            s.spec -= 1
            s.journal = outer
            del s.allocas[amark:]
            s.depth = depth
            del s.out.panics[panics_mark:]
            if s.spec > 0:
                raise
            s.effect_sites.add(site)
            return s.decide(f, R, cur, live, stop)
        s.spec -= 1
        s.journal = outer
        if not res:
            raise DeadPath()
        if len(res) == 1:
            c, t, R2, fin = res[0]
            for cells, off, v in fin.values():
                s.put_raw(cells, off, v)
            R[:] = R2
            s.learn(c)
            if s.spec:
                s.pathc_alive(c)
            else:
                s.out.path.append(c)
                s.pathc.append(c)
        else:
            s.merges += 1
            s.merge(R, res)
        if join is None:
            return None
        return True if join == stop else join

    def prune(s, live):
        """drop arms whose condition is decided by what is known, also below slices and cases"""
        out = []
        for c, t in live:
            if c.__class__ is B:
                hit = False
                at = smt.collect([c])
                if len(at) <= 400:
                    for a in at:
                        if a.kind in ('ite', 'ind') and a.args[0].id in s.known:
                            hit = True
                            break
                if hit:
                    c = s.simp(smt.deep_subst(c, {}, known=s.known))
                    if c is False:
                        continue
                    if c is True:
                        return [(True, t)]
            out.append((c, t))
        return out

    def pathc_alive(s, c):
        # the complement ended in a recorded panic: c holds for the rest of this arm
        s.pathc.append(c)

    def put_raw(s, cells, off, v):
        if s.journal is not None:
            s.journal.append((cells, off, cells.get(off)))
        if v is None:
            cells.pop(off, None)
        else:
            cells[off] = v

    def merge(s, R, res):
        # registers
        n = len(R)
        last = res[-1]
        for i in range(n):
            v = last[2][i]
            same = True
            for r in res:
                if r[2][i] is not v:
                    same = False
                    break
            if same:
                R[i] = v
                continue
            for r in reversed(res[:-1]):
                w = r[2][i]
                v = s.merge_val_lenient(r[0], w, v)
            R[i] = v
        # memory
        keys = {}
        for r in res:
            for k in r[3]:
                keys.setdefault(k[0], set()).add(k[1])
        objs = {}
        for r in res:
            for k, (cells, off, v) in r[3].items():
                objs[k[0]] = cells
        for oid, offs in keys.items():
            cells = objs[oid]
            # per arm view of the touched offsets
            views = []
            for r in res:
                d = {}
                for off in offs:
                    x = r[3].get((oid, off))
                    d[off] = x[2] if x is not None else cells.get(off)
                views.append(d)
            conflict = False
            for off in offs:
                sizes = {v[off][0] for v in views if v[off] is not None}
                if len(sizes) > 1:
                    conflict = True
                # a cell missing in one arm but covered differently there
                if any(v[off] is None for v in views) and len(sizes) == 1:
                    sz = next(iter(sizes))
                    for v in views:
                        if v[off] is None and covered(v, cells, offs, off, sz):
                            conflict = True
            if conflict:
                s.merge_bytes(cells, offs, views, res)
                continue
            for off in offs:
                cur = None
                for v, r in zip(reversed(views), reversed(res)):
                    x = v[off]
                    if x is None:
                        continue
                    if cur is None:
                        cur = x
                    elif cur[1] is not x[1]:
                        cur = (x[0], s.merge_val_lenient(r[0], x[1], cur[1]))
                s.put_raw(cells, off, cur)

    def merge_bytes(s, cells, offs, views, res):
        """merge by the common refinement of the cell boundaries in the arms"""
        full = []
        allk = set(cells) | set(offs)
        for v in views:
            d = {}
            for o in allk:
                x = v[o] if o in v else cells.get(o)
                if x is not None:
                    d[o] = x
            full.append(d)
        lo = min(offs)
        hi = max(o + d[o][0] for d in full for o in offs if o in d)
        # widen to cell boundaries
        cuts = set()
        for d in full:
            for o, x in d.items():
                if o < hi and o + x[0] > lo:
                    cuts.add(o); cuts.add(o + x[0])
        cuts = sorted(cuts)
        newc = {}
        for a, b in zip(cuts, cuts[1:]):
            cur = None
            for d, r in zip(reversed(full), reversed(res)):
                x = None
                for o in range(a, a - 16, -1):
                    c = d.get(o)
                    if c is not None:
                        if o + c[0] >= b:
                            x = c[1] if (o == a and o + c[0] == b) else part(c[1], a - o, b - a)
                        break
                if x is None:
                    continue
                cur = x if cur is None else s.merge_val_lenient(r[0], x, cur)
            if cur is not None:
                newc[a] = (b - a, cur)
        for o in list(cells):
            if o + cells[o][0] > cuts[0] and o < cuts[-1]:
                s.put_raw(cells, o, None)
        for o, c in newc.items():
            s.put_raw(cells, o, c)

    def merge_val_lenient(s, c, a, b):
        try:
            return s.merge_val(c, a, b)
        except Unsupported:
            return POISON

    def merge_val(s, c, a, b):
        if a is b:
            return a
        ka, kb = a.__class__, b.__class__
        if ka is int and kb is int and a == b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if ka is B or kb is B:
            if ka in (B, int, Poly) and kb in (B, int, Poly):
                r = T.bite(c, bv(a), bv(b))
                return r if r.__class__ is B else int(r)
        if ka in (int, Poly) and kb in (int, Poly):
            return T.ite(c, a, b)
        if ka is float and kb is float and a == b:
            return a
        if ka is tuple and kb is tuple and len(a) == len(b):
            return tuple(s.merge_val(c, x, y) for x, y in zip(a, b))
        raise Unsupported('cannot merge values')

    def decide(s, f, R, cur, live, stop):
        """commit to one arm; the others are explored by re-execution"""
        c, t = s.pick(live)
        e = f.edges.get((cur, t))
        if e is not None:
            e(R)
        return True if t == stop else t

    def pick(s, live):
        i = s.ndec
        s.ndec += 1
        if i < len(s.prefix):
            k = s.prefix[i]
        else:
            feas = [k for k in range(len(live)) if s.check_feasible(live[k][0])]
            if not feas:
                raise DeadPath()
            k = feas[0]
            for o in feas[1:]:
                s.work.append(s.prefix[:i] + s.chosen[len(s.prefix[:i]):i] + [o])
        s.chosen.append(k)
        c, t = live[k]
        s.learn(c)
        s.out.path.append(c)
        s.pathc.append(c)
        return c, t

    def check_feasible(s, c):
        if s.feasible is None:
            return True
        return s.feasible(s.out.pre + s.out.path + [c])

    def panic(s, nm, args, dbg):
        msg = nm
        loc = None
        try:
            a = [x for x in args if x.__class__ is int]
            # last pointer argument: &Location
            for p in reversed(a):
                if (p >> 40) and s.mem[p >> 40] is not None and (p >> 40) in s.const_ids():
                    fp = s.load(p, 8); ln = s.load(p + 8, 8)
                    if fp >> 40 and ln < 400:
                        name = s.rd_str(fp, ln).decode()
                        loc = f'{name.rstrip(chr(0))}:{s.load(p + 16, 4)}'
                        break
            if len(a) >= 2 and a[1] < 4000 and (a[0] >> 40):
                msg = s.rd_str(a[0], a[1]).decode('utf8', 'replace')
        except Exception:
            pass
        if msg == nm:
            m = re.search(r'(panic_\w*|unwrap_failed|expect_failed|bounds_check|slice_\w+|capacity_overflow|handle_error|already_\w+)', nm)
            if m:
                msg = m.group(1)
        s.out.panics.append(Panic(list(s.out.pre) + [c for c in s.pathc], msg, loc or (s.mod.loc(dbg) if dbg else None), nm))
        raise DeadPath()

    def const_ids(s):
        return {a >> 40 for a in s.gaddr.values()}

    def unreachable(s):
        # undefined behaviour if ever executed: report like a panic
        s.out.panics.append(Panic(list(s.out.pre) + [c for c in s.pathc], 'unreachable code', None, 'unreachable'))
        raise DeadPath()

    # ------------------------------------------------------------ driver
    def execute(s, name, params, limit=64, budget=200_000_000, fixed=None, feasible=None, known=(), nomerge=False):
        """all paths of harness `name`; returns [Outcome]"""
        f = s.mod.functions[name]
        s.feasible = feasible
        s.nomerge = nomerge
        s.work = [[]]
        outs = []
        s.effect_sites = set()
        while s.work:
            s.prefix = s.work.pop()
            if len(outs) >= limit:
                raise Unsupported(f'more than {limit} paths')
            s.chosen = []
            s.ndec = 0
            s.out = Outcome()
            s.params = params
            s.fixed = fixed or {}
            s.budget = budget
            s.known = {}
            s.trail = []
            s.pathc = []
            s.spec = 0
            s.depth = 0
            s.journal = None
            s.allocas = []
            s.cur = None
            s.lcbuf = {}
            # globals keep their initial contents between paths
            s.reset_globals()
            for k in known:
                s.learn(k)
            try:
                s.call(f, [])
            except DeadPath:
                s.out.died = True
            outs.append(s.out)
        return outs

    def reset_globals(s):
        if s.base_mark is None:
            s.base_mark = True
        # mutable globals: rebuild from the module text
        s.mem[:] = [None]
        s.gaddr_old = s.gaddr
        # compiled code holds literal addresses, so object numbers must be stable: replay allocation order
        order = sorted(s.gaddr_old.items(), key=lambda kv: kv[1])
        for nm, a in order:
            while len(s.mem) < (a >> 40):
                s.mem.append(None)
            s.mem.append({})
            cells = s._globcells.get(nm)
            if cells is None:
                cells = {}
                if a not in s.fobj:
                    g = s.mod.globals.get(nm)
                    if g is not None:
                        m = re.search(r'(?:^|\s)(?:constant|global) ', g)
                        p = llir.P(llir.tokenize(cut_global(g[m.end():])), s.mod)
                        ty = p.type()
                        if p.peek() is not None:
                            s.flat(cells, 0, ty, s.constant(s.mod, p, ty, p.next()))
                s._globcells[nm] = cells
            s.mem[a >> 40] = dict(cells)

    # ------------------------------------------------------------ harness interface
    def nm(s, p, n, i):
        return (s.rd_str(p, n).decode(), i)

    def effect(s):
        if s.spec:
            raise Effect()

    def sx_param(s, p, n):
        return s.params.get(s.rd_str(p, n).decode(), 0)

    def _input(s, key, lo, hi):
        if key in s.fixed:
            v = s.fixed[key]
        else:
            v = T.var(key if False else f'{key[0]}.{key[1]}', lo, hi)
        s.out.inputs[key] = v
        return v

    def sx_in_int(s, p, n, i, bits):
        return s._input(s.nm(p, n, i), 0, (1 << bits) - 1)

    def sx_in_int_hi(s, p, n, i, bits):
        k = s.nm(p, n, i)
        lo = s.out.inputs[k]
        if k in s.fixed:
            s.out.inputs[k] = s.fixed[k]
            return s.fixed[k] >> 64
        hi = T.var(f'{k[0]}.{k[1]}.hi', 0, (1 << bits) - 1)
        s.out.inputs[k] = T.add(lo, T.scale(hi, 1 << 64))
        return hi

    def sx_in_bool(s, p, n, i):
        v = T.bit_bool(s._input(s.nm(p, n, i), 0, 1))
        return v if v.__class__ is B else int(v)

    def sx_in_choice(s, p, n, i):
        """an input bit on whose value the execution forks at once"""
        s.effect()
        v = T.bit_bool(s._input(s.nm(p, n, i), 0, 1))
        v = s.simp(v) if v.__class__ is B else v
        if v.__class__ is not B:
            return int(v)
        c, r = s.pick([(v, 1), (T.bnot(v), 0)])
        s.out.choices.append(c)
        return r

    def sx_in_f(s, p, n, i, bits):
        return s._input(s.nm(p, n, i), 0, (1 << bits) - 1 if bits else FP - 1)

    def sx_in_z(s, p, n, i, bits):
        return s._input(s.nm(p, n, i), 0, (1 << bits) - 1)

    def sx_assume(s, b):
        s.effect()
        b = bv(b)
        b = s.simp(b)
        if b is False:
            raise DeadPath()
        if b is not True:
            s.out.pre.append(b)
            s.learn(b)

    def sx_out_int(s, p, n, i, v):
        s.effect()
        s.out.outs[s.nm(p, n, i)] = v

    def sx_out_int_hi(s, p, n, i, lo, hi):
        s.effect()
        s.out.outs[s.nm(p, n, i)] = T.add(lo, T.scale(hi, 1 << 64))

    def sx_out_bool(s, p, n, i, v):
        s.effect()
        s.out.outs[s.nm(p, n, i)] = T.ind(bv(v))

    def sx_out_f(s, p, n, i, v):
        s.effect()
        s.out.outs[s.nm(p, n, i)] = T.f_canon(v)

    def sx_out_z(s, p, n, i, v):
        s.effect()
        s.out.outs[s.nm(p, n, i)] = v

    def sx_note(s, p, n):
        s.effect()
        s.out.notes.append(s.rd_str(p, n).decode())

    def sx_lc_begin(s, p, n, i):
        s.effect()
        s.cur = (s.nm(p, n, i), [])

    def sx_lc_term(s, is_aux, idx, coef):
        s.effect()
        s.cur[1].append((2 * idx + is_aux, coef))

    def sx_lc_end(s):
        s.effect()
        k, l = s.cur
        if k[0] in ('A', 'B', 'C') and k[1] == 0:
            s.lcbuf[k[0]] = l
        else:
            s.out.lcs[k] = l

    def sx_enforce(s):
        s.effect()
        b = s.lcbuf
        s.out.cons.append((b['A'], b['B'], b['C']))
        s.out.order.append('c')

    def sx_alloc(s, kind, v):
        s.effect()
        o = s.out
        if kind == 1:
            idx = o.naux
            o.naux += 1
        else:
            idx = o.nin
            o.nin += 1
        o.vals[2 * idx + kind] = T.f_canon(v)
        o.order.append('a%d' % kind)
        return idx

    def sx_alloc_novalue(s, kind):
        s.effect()
        o = s.out
        if kind == 1:
            idx = o.naux
            o.naux += 1
        else:
            idx = o.nin
            o.nin += 1
        o.vals[2 * idx + kind] = None
        o.order.append('a%d' % kind)
        return idx

    # field
    def sx_f_from_u64(s, x):
        return iv(x)

    def sx_f_add(s, a, b):
        return T.f_add(a, b)

    def sx_f_sub(s, a, b):
        return T.f_sub(a, b)

    def sx_f_mul(s, a, b):
        return T.f_mul(a, b)

    def sx_f_inv(s, a):
        return T.f_inv(a)

    def sx_f_eq(s, a, b):
        r = s.simp(T.f_eq(a, b))
        return r if r.__class__ is B else int(r)

    def sx_f_lt(s, a, b):
        r = s.simp(T.f_lt(a, b))
        return r if r.__class__ is B else int(r)

    def sx_f_byte(s, a, i):
        return T.slice_(T.f_canon(a), 8 * i, 8)

    def sx_f_from_bytes(s, p, ok):
        v = 0
        for i in range(32):
            v = T.add(v, T.scale(s.load(p + i, 1), 1 << (8 * i)))
        c = T.lt(v, FP)
        s.store(ok, 1, T.ind(c))
        return v

    def sx_f_select(s, c, a, b):
        # ConditionallySelectable: a when c == 0
        c = s.simp(T.bit_bool(iv(c)))
        return T.f_ite(c, b, a)

    def sx_f_from_str(s, p, n, ok):
        b = s.rd_str(p, n)
        m = re.fullmatch(rb'\x01(\d+)\x02', b)
        if m:
            v = s.tokens[int(m.group(1))]
            lo, hi = T.rng(v)
            if lo >= 0:
                s.store(ok, 1, 1)
            else:
                s.store(ok, 1, T.ind(T.le(0, v)))
            return v
        # concrete: ff's PrimeField::from_str_vartime
        t = b.decode('utf8', 'replace')
        if t == '' or (t[0] == '0' and t != '0') or not all(ch in '0123456789' for ch in t):
            s.store(ok, 1, 0)
            return 0
        s.store(ok, 1, 1)
        return int(t) % FP

    # integers
    def sx_z_from_u64(s, x):
        return iv(x)

    def sx_z_from_i64(s, x):
        return T.to_signed(iv(x), 64)

    def sx_z_add(s, a, b):
        return T.add(a, b)

    def sx_z_sub(s, a, b):
        return T.sub(a, b)

    def sx_z_mul(s, a, b):
        return T.mul(a, b)

    def _div(s, a, b, kind):
        lo, hi = T.rng(b)
        if lo <= 0:
            if lo == 0 and hi > 0:
                # division by zero panics in num-bigint
                s.guard(T.lt(0, b), 'attempt to divide by zero')
            elif lo == 0 and hi == 0:
                s.out.panics.append(Panic(list(s.out.pre) + list(s.pathc), 'attempt to divide by zero', None, 'num-bigint'))
                raise DeadPath()
            elif a.__class__ is int and b.__class__ is int:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return {'tdiv': q, 'trem': a - q * b, 'fdiv': a // b, 'fmod': a % b}[kind]
            else:
                raise Unsupported('division by a possibly negative number')
        return {'tdiv': T.tdiv, 'trem': T.trem, 'fdiv': T.fdiv, 'fmod': T.fmod}[kind](a, b)

    def guard(s, c, msg):
        """continue only where c holds; elsewhere the code panics"""
        c = s.simp(c)
        if c is True:
            return
        if c is False:
            s.out.panics.append(Panic(list(s.out.pre) + list(s.pathc), msg, None, 'guard'))
            raise DeadPath()
        s.out.panics.append(Panic(list(s.out.pre) + list(s.pathc) + [T.bnot(c)], msg, None, 'guard'))
        s.learn(c)
        s.pathc.append(c)
        if s.spec == 0:
            s.out.path.append(c)

    def sx_z_tdiv(s, a, b):
        return s._div(a, b, 'tdiv')

    def sx_z_trem(s, a, b):
        return s._div(a, b, 'trem')

    def sx_z_fdiv(s, a, b):
        return s._div(a, b, 'fdiv')

    def sx_z_fmod(s, a, b):
        return s._div(a, b, 'fmod')

    def sx_z_gcd(s, a, b):
        if a.__class__ is int and b.__class__ is int:
            return math.gcd(a, b)
        raise Unsupported('symbolic gcd')

    def sx_z_shl(s, a, n):
        if n.__class__ is not int:
            raise Unsupported('symbolic shift')
        return T.scale(a, 1 << n)

    def sx_z_shr(s, a, n):
        if n.__class__ is not int:
            raise Unsupported('symbolic shift')
        lo = T.rng(a)[0]
        if a.__class__ is Poly and lo < 0:
            q = -(lo >> n)
            return T.sub(T.shr(T.add(a, q << n), n), q)
        return T.fdiv(a, 1 << n)

    def _zbit(s, op, a, b):
        if a.__class__ is int and b.__class__ is int:
            return a & b if op == 'and' else a | b if op == 'or' else a ^ b
        (la, ha), (lb, hb) = T.rng(a), T.rng(b)
        for x, y, h in ((a, b, lb), (b, a, la)):
            if op == 'and' and y.__class__ is int and y >= 0 and y & (y + 1) == 0:
                return T.wrap(x, y.bit_length())
        if la < 0 or lb < 0:
            raise Unsupported('bit operation on a possibly negative integer')
        return s.binop(op, a, b, max(T.blen(ha), T.blen(hb)))

    def sx_z_and(s, a, b):
        return s._zbit('and', a, b)

    def sx_z_or(s, a, b):
        return s._zbit('or', a, b)

    def sx_z_xor(s, a, b):
        return s._zbit('xor', a, b)

    def sx_z_lt(s, a, b):
        r = s.simp(T.lt(a, b))
        return r if r.__class__ is B else int(r)

    def sx_z_eq(s, a, b):
        r = s.simp(T.eq(a, b))
        return r if r.__class__ is B else int(r)

    def sx_z_bits(s, a):
        if a.__class__ is int:
            return abs(a).bit_length()
        if a.lo < 0:
            m = T.add(T.clamp0(a), T.clamp0(T.neg(a)))
            return T._atom('nbits', (m, a), 0, T.blen(m.hi)).poly
        if T.blen(a.lo) == T.blen(a.hi):
            return T.blen(a.hi)
        return T._atom('nbits', (a, a), T.blen(a.lo), T.blen(a.hi)).poly

    def sx_z_max_bits(s, a):
        """an upper bound on the bit length (concrete)"""
        lo, hi = T.rng(a)
        return max(T.blen(abs(lo)), T.blen(abs(hi)))

    def sx_z_low_u64(s, a):
        lo, hi = T.rng(a)
        if lo >= 0:
            return T.slice_(a, 0, 64)
        return T.wrap(a, 64)

    def sx_z_to_f64(s, a):
        if a.__class__ is not int:
            raise Unsupported('symbolic to_f64')
        try:
            return float(a)
        except OverflowError:
            return math.inf

    def sx_z_from_f64(s, x):
        return int(x)

    def sx_z_render(s, a, radix, buf, cap):
        if a.__class__ is int:
            if radix == 10:
                t = str(a)
            elif radix == 16:
                t = '%x' % a
            elif radix == 2:
                t = bin(a)[2:]
            else:
                raise Unsupported('radix')
        else:
            if radix != 10:
                raise Unsupported('symbolic radix')
            s.tokens[a.id] = a
            t = '\x01%d\x02' % a.id
        b = t.encode()
        if len(b) > cap:
            raise Unsupported('render buffer')
        for i, c in enumerate(b):
            s.store(buf + i, 1, c)
        return len(b)

    def sx_z_parse(s, p, n, radix, ok):
        b = s.rd_str(p, n)
        m = re.fullmatch(rb'\x01(\d+)\x02', b)
        if m and radix == 10:
            s.store(ok, 1, 1)
            return s.tokens[int(m.group(1))]
        try:
            v = int(b.decode(), radix)
            s.store(ok, 1, 1)
            return v
        except ValueError:
            s.store(ok, 1, 0)
            return 0

    def sx_z_from_bytes_le(s, p, n):
        v = 0
        for i in range(n):
            v = T.add(v, T.scale(s.load(p + i, 1), 1 << (8 * i)))
        return v

    # sha256 as an uninterpreted function with recorded arguments
    def sx_sha_begin(s, n):
        s.effect()
        s.out.sha.append(({}, {}))
        c = len(s.out.sha) - 1
        s.out.outs[('sha_len', c)] = n
        return c

    def sx_sha_in(s, c, i, kind, v, value):
        s.effect()
        s.out.sha[c][0][i] = (kind, v, value)

    def sx_sha_out(s, c, i):
        return s._input(('sha', c * 256 + i), 0, 1)

    def sx_sha_out_var(s, c, i, v):
        s.effect()
        s.out.sha[c][1][i] = v


EXT = {'bcmp': 'x_bcmp', 'memcmp': 'x_memcmp', 'malloc': 'x_malloc', 'calloc': 'x_calloc', 'realloc': 'x_realloc', 'free': 'x_free',
       'posix_memalign': 'x_posix_memalign', 'strlen': 'x_strlen', 'log2': 'x_log2', 'write': 'x_write'}


class _Poison:
    def __repr__(s):
        return 'POISON'


POISON = _Poison()


def iv(v):
    """integer view"""
    k = v.__class__
    if k is int or k is Poly:
        return v
    if k is B:
        return T.ind(v)
    if k is bool:
        return int(v)
    raise Unsupported(f'integer operation on {v!r}')


def bv(v):
    """boolean view"""
    k = v.__class__
    if k is B or k is bool:
        return v
    if k is int:
        return v != 0
    if k is Poly:
        return T.bit_bool(v)
    raise Unsupported(f'boolean operation on {v!r}')


def part(v, o, n):
    """bytes [o, o+n) of an integer value"""
    if v.__class__ is int:
        return (v >> (8 * o)) & ((1 << (8 * n)) - 1)
    if v.__class__ is B:
        v = T.ind(v)
    if v.__class__ is Poly:
        return T.slice_(v, 8 * o, 8 * n)
    raise Unsupported('part of a value')


def band_c(a, m, n):
    """a & constant"""
    r = 0
    i = 0
    m &= (1 << n) - 1
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            r = T.add(r, T.scale(T.slice_(a, i, j - i), 1 << i))
            i = j
        else:
            i += 1
    return r


def disjoint(a, b):
    """bit fields certainly disjoint (a | b == a + b)"""
    def fields(t):
        if t.__class__ is not Poly:
            return [(0, t, T.blen(t))]
        ch = T.chunks(t)
        if ch is None:
            return [(0, t, T.blen(t.hi))]
        return ch
    ma = mb = 0
    for sh, t, w in fields(a):
        tz = 0
        ma |= ((1 << w) - 1) << sh
    for sh, t, w in fields(b):
        mb |= ((1 << w) - 1) << sh
    return ma & mb == 0


def covered(view, cells, offs, off, sz):
    for o in range(off - 15, off + sz):
        if o == off:
            continue
        c = view[o] if o in offs else cells.get(o)
        if c is not None and o + c[0] > off:
            return True
    return False


def cut_global(body):
    """value text of a global without trailing attributes"""
    d = 0
    q = False
    i = 0
    n = len(body)
    while i < n:
        c = body[i]
        if c == '"':
            q = not q
        elif not q:
            if c in '([{<':
                d += 1
            elif c in ')]}>':
                d -= 1
            elif c == ',' and d == 0:
                return body[:i]
        i += 1
    return body
