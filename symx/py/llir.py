"""LLVM IR (text) reader and translator to Python block functions.

A module is split into functions lazily; each function is translated, on first call, to one Python
function per basic block.  Registers live in a list R.  Concrete operands are computed inline,
symbolic ones by the helper object X (see machine.py)."""
import re

TOK = re.compile(r'\s*(?:(%"[^"]*"|%[\w.$-]+)|(@"[^"]*"|@[\w.$-]+)|(c?"(?:[^"])*")|(-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+)|([A-Za-z_.][\w.$]*)|(\.\.\.|[(){}\[\]<>,=*:])|(![\w.]*(?:\([^)]*\))?|#\d+))')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise ValueError('token: ' + s[i:i + 60])
        i = m.end()
        out.append(m.group(m.lastindex))
    return out


class Ty:
    __slots__ = ('k', 'n', 'el', 'size', 'ssize', 'align', 'offs')

    def __init__(s, k, n=0, el=None):
        s.k = k; s.n = n; s.el = el; s.offs = None
        if k == 'i':
            s.size = max((n + 7) // 8, 1)
            a = 1
            while a < s.size:
                a *= 2
            s.size = a if n <= 64 else (n + 7) // 8
            s.align = min(a, 16)
        elif k == 'ptr':
            s.size = 8; s.align = 8
        elif k == 'double':
            s.size = 8; s.align = 8
        elif k == 'float':
            s.size = 4; s.align = 4
        elif k == 'arr':
            s.size = n * el.size; s.align = el.align
        elif k == 'vec':
            s.size = (n * (el.n if el.k == 'i' else el.size * 8) + 7) // 8; s.align = s.size
        elif k in ('struct', 'pstruct'):
            off = 0
            al = 1
            s.offs = []
            for e in el:
                if k == 'struct':
                    off = (off + e.align - 1) // e.align * e.align
                    al = max(al, e.align)
                s.offs.append(off)
                off += e.size
            s.size = (off + al - 1) // al * al
            s.align = al
        else:
            s.size = 0; s.align = 1
        # what a load or a store touches: i56 is seven bytes, in eight of an array
        s.ssize = max((n + 7) // 8, 1) if k == 'i' else s.size


_ity = {}
PTR = Ty('ptr')
VOID = Ty('void')


def ity(n):
    t = _ity.get(n)
    if t is None:
        t = _ity[n] = Ty('i', n)
    return t


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.mod = mod

    def peek(s):
        return s.t[s.i] if s.i < len(s.t) else None

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def accept(s, x):
        if s.i < len(s.t) and s.t[s.i] == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        if s.next() != x:
            raise ValueError(f'expected {x} at {s.t[max(0, s.i-4):s.i+4]}')

    def type(s):
        x = s.next()
        if x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif x[0] == 'i' and x[1:].isdigit():
            t = ity(int(x[1:]))
        elif x in ('double', 'float', 'metadata', 'label', 'token'):
            t = Ty(x)
        elif x == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']')
            t = Ty('arr', n, e)
        elif x == '{':
            els = []
            if not s.accept('}'):
                while True:
                    els.append(s.type())
                    if s.accept('}'):
                        break
                    s.expect(',')
            t = Ty('struct', 0, els)
        elif x == '<':
            if s.accept('{'):
                els = []
                if not s.accept('}'):
                    while True:
                        els.append(s.type())
                        if s.accept('}'):
                            break
                        s.expect(',')
                s.expect('>')
                t = Ty('pstruct', 0, els)
            else:
                n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>')
                t = Ty('vec', n, e)
        else:
            raise ValueError('type ' + x)
        while s.peek() == '(' and t.k in ('i', 'void', 'ptr') and s._fnty():
            pass
        return t

    def _fnty(s):
        # function type such as  i64 (i64, ...)
        d = 0
        j = s.i
        while True:
            x = s.t[j]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        s.i = j + 1
        return False

    def attrs(s):
        """skip parameter attributes"""
        while True:
            x = s.peek()
            if x is None:
                return
            if x in ATTRS:
                s.i += 1
                if s.peek() == '(':
                    s.skip_parens()
                elif x in ('align', 'dereferenceable_or_null') and s.peek() and s.peek().isdigit():
                    s.i += 1
            elif x.startswith('#'):
                s.i += 1
            else:
                return

    def skip_parens(s):
        d = 0
        while True:
            x = s.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return


ATTRS = {'noalias', 'nofree', 'noundef', 'nonnull', 'writable', 'writeonly', 'readonly', 'readnone', 'sret', 'align', 'captures',
         'dereferenceable', 'dereferenceable_or_null', 'initializes', 'dead_on_unwind', 'zeroext', 'signext', 'range', 'allocalign',
         'allocptr', 'returned', 'byval', 'inreg', 'immarg', 'nest', 'nocapture', 'noext', 'nofpclass', 'dead_on_return', 'fastcc', 'ccc', 'coldcc',
         'unnamed_addr', 'nsw', 'nuw', 'inbounds', 'nusw', 'exact', 'disjoint', 'nneg', 'samesign', 'fast', 'tail', 'musttail', 'notail',
         'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'preserve_mostcc', 'cold'}


def cbytes(s):
    """decode c"..." """
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(c))
            i += 1
    return bytes(out)


class Function:
    def __init__(f, name, line0, mod):
        f.name = name; f.line0 = line0; f.mod = mod
        f.ready = False


class Module:
    def __init__(m, path):
        m.lines = open(path).read().split('\n')
        m.functions = {}
        m.globals = {}
        m.declares = {}
        m.fid = {}
        L = m.lines
        namere = re.compile(r'@("[^"]*"|[\w.$-]+)')
        i = 0
        m.md = {}
        while i < len(L):
            s = L[i]
            if s.startswith('define'):
                nm = namere.search(s).group(1).strip('"')
                m.functions[nm] = Function(nm, i, m)
                while L[i] != '}':
                    i += 1
            elif s.startswith('declare'):
                nm = namere.search(s).group(1).strip('"')
                m.declares[nm] = s
            elif s.startswith('@'):
                nm, rest = s[1:].split(' = ', 1)
                m.globals[nm.strip('"')] = rest
            elif s.startswith('!') and ' = ' in s:
                k, rest = s.split(' = ', 1)
                m.md[k] = rest
            i += 1

    # ---- debug locations
    def loc(m, dbg):
        """(file, line) of a !DILocation id"""
        s = m.md.get(dbg)
        if s is None or 'DILocation' not in s:
            return None
        line = int(re.search(r'line: (\d+)', s).group(1)) if 'line:' in s else 0
        sc = re.search(r'scope: (![0-9]+)', s).group(1)
        return m.scope_file(sc), line

    _sf = None

    def scope_file(m, sc):
        if m._sf is None:
            m._sf = {}
        r = m._sf.get(sc)
        if r is None:
            s = m.md.get(sc, '')
            mt = re.search(r'file: (![0-9]+)', s)
            if mt:
                fs = m.md.get(mt.group(1), '')
                fn = re.search(r'filename: "([^"]*)"', fs)
                dr = re.search(r'directory: "([^"]*)"', fs)
                r = (fn.group(1) if fn else '?')
                if not r.startswith('/') and dr:
                    r = dr.group(1) + '/' + r
            else:
                r = '?'
            m._sf[sc] = r
        return r

    def scope_fn(m, dbg):
        """name of the source function of a !DILocation"""
        s = m.md.get(dbg)
        if s is None:
            return None
        sc = re.search(r'scope: (![0-9]+)', s)
        for _ in range(20):
            if not sc:
                return None
            t = m.md.get(sc.group(1), '')
            if 'DISubprogram' in t:
                n = re.search(r'name: "([^"]*)"', t)
                return n.group(1) if n else None
            sc = re.search(r'scope: (![0-9]+)', t)
        return None


RE_DBG = re.compile(r', !dbg (![0-9]+)')
RE_LABEL = re.compile(r'^("[^"]*"|[\w.$-]+):')


def strip_md(s):
    # drop trailing metadata attachments
    i = s.find(', !')
    return s if i < 0 else s[:i]


def split_top(toks):
    """split token list at top-level commas"""
    out = [[]]
    d = 0
    for t in toks:
        if t in '([{<' and len(t) == 1:
            d += 1
        elif t in ')]}>' and len(t) == 1:
            d -= 1
        if t == ',' and d == 0:
            out.append([])
        else:
            out[-1].append(t)
    return out


class FnGen:
    """translates one function"""

    def __init__(g, fn, X):
        g.fn = fn; g.X = X; g.mod = fn.mod
        g.regs = {}
        g.consts = {}
        g.ns = {'X': X, 'MEM': X.mem, 'load': X.load, 'store': X.store, 'call': X.call, 'B': X.Bcls}

    def reg(g, name):
        r = g.regs.get(name)
        if r is None:
            r = g.regs[name] = len(g.regs)
        return r

    def const(g, v):
        """bind a Python object into the namespace"""
        nm = f'K{len(g.consts)}'
        g.consts[nm] = v
        g.ns[nm] = v
        return nm

    def value(g, p, ty):
        """parse a value of type ty; returns Python expression text"""
        x = p.next()
        if x[0] == '%':
            return f'R[{g.reg(x)}]'
        return repr_const(g.X.constant(g.mod, p, ty, x), g)

    def typed(g, p):
        ty = p.type()
        p.attrs()
        return ty, g.value(p, ty)


def repr_const(v, g):
    if v.__class__ is int:
        return str(v)
    return g.const(v)


def compile_function(fn, X):
    mod = fn.mod
    L = mod.lines
    g = FnGen(fn, X)
    i = fn.line0
    head = L[i]
    # parameters
    nm = head.index('@')
    s = head[nm:]
    toks = tokenize(s[:s.rindex('{')] if '{' in s else s)
    p = P(toks, mod)
    p.next()
    p.expect('(')
    # collect parameter tokens
    d = 1
    ptoks = []
    while d:
        x = p.next()
        if x == '(':
            d += 1
        elif x == ')':
            d -= 1
            if d == 0:
                break
        ptoks.append(x)
    nparam = 0
    if ptoks:
        for part in split_top(ptoks):
            if part == ['...']:
                continue
            g.reg(part[-1])
            nparam += 1
    hp = tokenize(head[:nm])
    # blocks
    blocks = []
    cur = None
    i += 1
    first = True
    while L[i] != '}':
        s = L[i]
        if not s or s[0] == ';':
            i += 1
            continue
        m = RE_LABEL.match(s)
        if m and not s.startswith(' '):
            cur = (m.group(1).strip('"'), [])
            blocks.append(cur)
        else:
            if cur is None:
                cur = (None, [])
                blocks.append(cur)
            t = s.strip()
            if t.startswith('switch ') and not t.endswith(']') and '[' in t and ']' not in t.split('[')[-1]:
                acc = t
                while True:
                    i += 1
                    acc += ' ' + L[i].strip()
                    if L[i].strip().startswith(']'):
                        break
                t = acc
            elif t.startswith('invoke ') or (' = invoke ' in t) or (' = landingpad' in t):
                while L[i + 1].startswith('          ') or L[i + 1].strip().startswith('to label'):
                    i += 1
                    t += ' ' + L[i].strip()
            cur[1].append(t)
        i += 1
    if blocks[0][0] is None:
        blocks[0] = (f'{nparam}', blocks[0][1])
    bidx = {b[0]: k for k, b in enumerate(blocks)}
    fn.nblocks = len(blocks)
    fn.names = [b[0] for b in blocks]
    succ = [[] for _ in blocks]
    phis = {}
    code = []
    fn.dbg = [set() for _ in blocks]
    fn.exits = set()
    for k, (lab, ins) in enumerate(blocks):
        body = []
        done = False
        j = 0
        while j < len(ins):
            t = ins[j]
            md = RE_DBG.search(t)
            dbg = md.group(1) if md else None
            if dbg:
                fn.dbg[k].add(dbg)
            t0 = strip_md(t)
            dst = None
            if t0[0] == '%':
                e = t0.index(' = ')
                dst = t0[:e]
                t0 = t0[e + 3:]
            op = t0.split(' ', 1)[0]
            if op == 'phi':
                toks = tokenize(t0[4:])
                p = P(toks, mod)
                while p.peek() in ATTRS:
                    p.next()
                ty = p.type()
                dr = g.reg(dst)
                while True:
                    p.expect('[')
                    v = g.value(p, ty)
                    p.expect(',')
                    pl = p.next()[1:].strip('"')
                    p.expect(']')
                    phis.setdefault((bidx[pl], k), []).append((dr, v))
                    if not p.accept(','):
                        break
                j += 1
                continue
            try:
                done = emit(g, op, t0, dst, body, succ[k], bidx, k, dbg, ins[j + 1] if j + 1 < len(ins) else '')
            except (ValueError, KeyError, IndexError) as e:
                msg = f'cannot translate: {t0[:150]} ({e!r})'
                body.append(f'raise X.Unsupported({msg!r})')
                done = True
                # successors unknown: treat as exit
                if op in ('br', 'switch', 'invoke'):
                    pass
            j += 1
            if done:
                break
        if not body or not done:
            body.append('raise X.Unsupported("fell off block")')
        code.append(f'def b{k}(R):\n  ' + '\n  '.join(body))
        if any(x.startswith('return -1') for x in body):
            fn.exits.add(k)
    # edges
    seen = set()
    for (pb, sb), lst in phis.items():
        # parallel copy
        srcs = [v for _, v in lst]
        dsts = [d for d, _ in lst]
        if len(lst) == 1:
            code.append(f'def e{pb}_{sb}(R):\n  R[{dsts[0]}] = {srcs[0]}')
        else:
            code.append(f'def e{pb}_{sb}(R):\n  ' + ', '.join(f'R[{d}]' for d in dsts) + ' = ' + ', '.join(srcs))
    src = '\n'.join(code)
    exec(compile(src, f'<{fn.name[:60]}>', 'exec'), g.ns)
    fn.blocks = [g.ns[f'b{k}'] for k in range(len(blocks))]
    fn.edges = {(pb, sb): g.ns[f'e{pb}_{sb}'] for (pb, sb) in phis}
    fn.nregs = len(g.regs) + 1
    fn.nparam = nparam
    fn.succ = succ
    fn.retslot = fn.nregs - 1
    fn.ipdom = None
    fn.hit = bytearray(len(blocks))
    fn.ready = True
    return fn


def postdom(fn):
    """immediate post-dominators over blocks that can reach a return; -1 is the virtual exit"""
    n = fn.nblocks
    pred = [[] for _ in range(n)]
    for a in range(n):
        for b in fn.succ[a]:
            pred[b].append(a)
    live = set(fn.exits)
    st = list(fn.exits)
    while st:
        b = st.pop()
        for a in pred[b]:
            if a not in live:
                live.add(a)
                st.append(a)
    EX = n
    rsucc = {b: [x for x in set(fn.succ[b]) if x in live] for b in live}
    for b in fn.exits:
        rsucc[b] = rsucc[b] + [EX]
    # order: reverse postorder of the reversed graph from EX
    rpred = {EX: list(fn.exits)}
    for b in live:
        rpred.setdefault(b, [])
    for b in live:
        for s in rsucc[b]:
            if s != EX:
                rpred[s].append(b)
    order = []
    seen = {EX}
    stack = [(EX, iter(rpred[EX]))]
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(rpred.get(x, []))))
                break
        else:
            order.append(b)
            stack.pop()
    num = {b: i for i, b in enumerate(order)}  # EX has the highest number
    idom = {EX: EX}
    changed = True
    while changed:
        changed = False
        for b in reversed(order):
            if b == EX:
                continue
            new = None
            for s in rsucc[b]:
                if s in idom:
                    if new is None:
                        new = s
                    else:
                        x, y = new, s
                        while x != y:
                            while num[x] < num[y]:
                                x = idom[x]
                            while num[y] < num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    fn.ipdom = {b: (-1 if idom[b] == EX else idom[b]) for b in idom if b != EX}
    fn.livebl = live


ICMP = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}
SICMP = {'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}


def emit(g, op, t0, dst, body, succ, bidx, k, dbg, nxt):
    """append Python statements for one instruction; True when it terminates the block"""
    mod = g.mod
    D = f'R[{g.reg(dst)}]' if dst else None
    rest = t0[len(op) + 1:]
    if op in ('call', 'tail', 'musttail', 'notail'):
        return emit_call(g, t0, dst, body, dbg, nxt)
    if op == 'load':
        p = P(tokenize(rest), mod)
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        ty = p.type()
        p.expect(',')
        _, a = g.typed(p)
        if ty.k == 'i' and ty.n == 1:
            body.append(f'{D} = X.load_i1({a})')
        elif ty.k in ('i', 'ptr'):
            body.append(f'a = {a}')
            body.append(f'c = MEM[a >> 40].get(a & 0xffffffffff) if a.__class__ is int else None')
            body.append(f'{D} = c[1] if c is not None and c[0] == {ty.ssize} else load(a, {ty.ssize})')
        elif ty.k in ('double', 'float'):
            body.append(f'{D} = X.load_fp({a}, {ty.size})')
        elif ty.k == 'vec':
            body.append(f'{D} = X.load_vec({a}, {ty.n}, {ty.el.size})')
        else:
            raise ValueError('load type')
        return False
    if op == 'store':
        p = P(tokenize(rest), mod)
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        ty, v = g.typed(p)
        p.expect(',')
        _, a = g.typed(p)
        if ty.k == 'i' and ty.n == 1:
            v = f'X.zext1({v})'
        if ty.k in ('i', 'ptr'):
            body.append(f'store({a}, {ty.ssize}, {v})')
        elif ty.k in ('double', 'float'):
            body.append(f'store({a}, {ty.ssize}, {v})')
        elif ty.k == 'vec':
            body.append(f'X.store_vec({a}, {v}, {ty.el.size})')
        else:
            body.append(f'X.store_agg({a}, {v}, {g.const(ty)})')
        return False
    if op == 'getelementptr':
        p = P(tokenize(rest), mod)
        p.attrs()
        ty = p.type()
        p.expect(',')
        _, a = g.typed(p)
        terms = []
        c = 0
        first = True
        cur = ty
        while p.accept(','):
            it, v = g.typed(p)
            if first:
                sz = cur.size
                first = False
            elif cur.k in ('arr', 'vec'):
                cur = cur.el
                sz = cur.size
            elif cur.k in ('struct', 'pstruct'):
                c += cur.offs[int(v)]
                cur = cur.el[int(v)]
                continue
            else:
                raise ValueError('gep')
            if v.lstrip('-').isdigit():
                iv = int(v)
                if it.n < 64 and iv >> (it.n - 1):
                    iv -= 1 << it.n
                c += iv * sz
            else:
                if it.n < 64:
                    v = f'X.sext({v}, {it.n}, 64)'
                terms.append((v, sz))
        c &= (1 << 64) - 1
        if not terms:
            body.append(f'a = {a}')
            body.append(f'{D} = (a + {c}) & 0xffffffffffffffff if a.__class__ is int else X.add(a, {c}, 64)')
        else:
            body.append(f'a = {a}')
            for v, sz in terms:
                body.append(f'b = {v}')
                body.append(f'a = (a + b * {sz}) & 0xffffffffffffffff if a.__class__ is int is b.__class__ else X.add(a, X.mul(b, {sz}, 64), 64)')
            if c:
                body.append(f'a = (a + {c}) & 0xffffffffffffffff if a.__class__ is int else X.add(a, {c}, 64)')
            body.append(f'{D} = a')
        return False
    if op == 'icmp':
        p = P(tokenize(rest), mod)
        while p.peek() in ('samesign',):
            p.next()
        pr = p.next()
        ty, a = g.typed(p)
        p.expect(',')
        b = g.value(p, ty)
        if ty.k == 'vec':
            body.append(f'{D} = X.vicmp({pr!r}, {a}, {b})')
            return False
        n = 64 if ty.k == 'ptr' else ty.n
        if pr in ICMP:
            body.append(f'a = {a}; b = {b}')
            body.append(f'{D} = (1 if a {ICMP[pr]} b else 0) if a.__class__ is int is b.__class__ else X.icmp({pr!r}, a, b, {n})')
        else:
            h = 1 << (n - 1)
            body.append(f'a = {a}; b = {b}')
            body.append(f'{D} = (1 if (a ^ {h}) {SICMP[pr]} (b ^ {h}) else 0) if a.__class__ is int is b.__class__ else X.icmp({pr!r}, a, b, {n})')
        return False
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
        p = P(tokenize(rest), mod)
        p.attrs()
        ty, a = g.typed(p)
        p.expect(',')
        b = g.value(p, ty)
        if ty.k == 'vec':
            body.append(f'{D} = X.vop({op!r}, {a}, {b}, {ty.el.n})')
            return False
        n = ty.n
        M = (1 << n) - 1
        if n == 1:
            body.append(f'{D} = X.bop({op!r}, {a}, {b})')
            return False
        py = {'add': f'(a + b) & {M}', 'sub': f'(a - b) & {M}', 'mul': f'(a * b) & {M}', 'and': 'a & b', 'or': 'a | b', 'xor': 'a ^ b'}.get(op)
        body.append(f'a = {a}; b = {b}')
        if py:
            body.append(f'{D} = {py} if a.__class__ is int is b.__class__ else X.binop({op!r}, a, b, {n})')
        else:
            body.append(f'{D} = X.binop({op!r}, a, b, {n})')
        return False
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
        p = P(tokenize(rest), mod)
        p.attrs()
        ty, a = g.typed(p)
        p.expect('to')
        t2 = p.type()
        if op == 'zext':
            if ty.k == 'vec':
                body.append(f'{D} = tuple(X.zext1(v) for v in {a})')
            elif ty.n == 1:
                body.append(f'{D} = X.zext1({a})')
            else:
                body.append(f'{D} = {a}')
        elif op == 'sext':
            body.append(f'{D} = X.sext({a}, {ty.n}, {t2.n})')
        elif op == 'trunc':
            if ty.k == 'vec':
                body.append(f'{D} = tuple(X.trunc(v, {t2.el.n}) for v in {a})')
            else:
                body.append(f'{D} = X.trunc({a}, {t2.n})')
        elif op in ('ptrtoint', 'inttoptr'):
            body.append(f'{D} = {a}')
        elif op == 'bitcast':
            body.append(f'{D} = X.bitcast({a}, {g.const(ty)}, {g.const(t2)})')
        else:
            body.append(f'{D} = X.fpconv({op!r}, {a}, {g.const(ty)}, {g.const(t2)})')
        return False
    if op == 'select':
        p = P(tokenize(rest), mod)
        p.attrs()
        tc, c = g.typed(p)
        p.expect(',')
        ta, a = g.typed(p)
        p.expect(',')
        tb, b = g.typed(p)
        if tc.k == 'vec':
            raise ValueError('vector select')
        body.append(f'c = {c}')
        body.append(f'{D} = ({a} if c else {b}) if c.__class__ is int else X.select(c, {a}, {b})')
        return False
    if op == 'br':
        p = P(tokenize(rest), mod)
        if p.accept('label'):
            t = bidx[p.next()[1:].strip('"')]
            succ.append(t)
            body.append(f'return {t}')
            return True
        ty, c = g.typed(p)
        p.expect(',')
        p.expect('label')
        t = bidx[p.next()[1:].strip('"')]
        p.expect(',')
        p.expect('label')
        f = bidx[p.next()[1:].strip('"')]
        succ.extend([t, f])
        body.append(f'c = {c}')
        body.append(f'if c.__class__ is int: return {t} if c else {f}')
        body.append(f'return X.brc(c, {t}, {f})')
        return True
    if op == 'switch':
        toks = tokenize(rest)
        p = P(toks, mod)
        ty, v = g.typed(p)
        p.expect(',')
        p.expect('label')
        dflt = bidx[p.next()[1:].strip('"')]
        p.expect('[')
        cases = {}
        while not p.accept(']'):
            p.type()
            x = p.next()
            cv = {'true': 1, 'false': 0}.get(x)
            if cv is None:
                cv = int(x) & ((1 << ty.n) - 1)
            p.expect(',')
            p.expect('label')
            cases[cv] = bidx[p.next()[1:].strip('"')]
        succ.extend(list(cases.values()) + [dflt])
        K = g.const(cases)
        body.append(f'v = {v}')
        body.append(f'if v.__class__ is int: return {K}.get(v, {dflt})')
        body.append(f'return X.switch(v, {K}, {dflt})')
        return True
    if op == 'ret':
        p = P(tokenize(rest), mod)
        if p.peek() == 'void':
            body.append('R[-1] = None')
        else:
            ty, v = g.typed(p)
            body.append(f'R[-1] = {v}')
        body.append('return -1')
        return True
    if op == 'unreachable':
        body.append('X.unreachable()')
        body.append('raise X.Unsupported("unreachable executed")')
        return True
    if op == 'alloca':
        p = P(tokenize(rest), mod)
        ty = p.type()
        body.append(f'{D} = X.alloca({ty.size})')
        return False
    if op == 'extractvalue':
        p = P(tokenize(rest), mod)
        ty, a = g.typed(p)
        e = a
        while p.accept(','):
            e += f'[{p.next()}]'
        body.append(f'{D} = {e}')
        return False
    if op == 'insertvalue':
        p = P(tokenize(rest), mod)
        ty, a = g.typed(p)
        p.expect(',')
        t2, b = g.typed(p)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        body.append(f'{D} = X.insertvalue({a}, {b}, {tuple(idx)}, {g.const(ty)})')
        return False
    if op == 'insertelement':
        p = P(tokenize(rest), mod)
        ty, a = g.typed(p)
        p.expect(',')
        t2, b = g.typed(p)
        p.expect(',')
        t3, i = g.typed(p)
        body.append(f'{D} = X.insertelement({a}, {b}, {i}, {ty.n})')
        return False
    if op == 'extractelement':
        p = P(tokenize(rest), mod)
        ty, a = g.typed(p)
        p.expect(',')
        t3, i = g.typed(p)
        body.append(f'{D} = {a}[{i}]')
        return False
    if op == 'shufflevector':
        p = P(tokenize(rest), mod)
        ty, a = g.typed(p)
        p.expect(',')
        t2, b = g.typed(p)
        p.expect(',')
        t3, m = g.typed(p)
        body.append(f'{D} = X.shuffle({a}, {b}, {m}, {ty.n})')
        return False
    if op == 'freeze':
        p = P(tokenize(rest), mod)
        ty, a = g.typed(p)
        body.append(f'{D} = {a}')
        return False
    if op == 'fence':
        return False
    if op == 'atomicrmw':
        p = P(tokenize(rest), mod)
        if p.peek() == 'volatile':
            p.next()
        o = p.next()
        _, a = g.typed(p)
        p.expect(',')
        ty, b = g.typed(p)
        body.append(f'{D} = X.atomicrmw({o!r}, {a}, {b}, {ty.size})')
        return False
    if op == 'cmpxchg':
        p = P(tokenize(rest), mod)
        while p.peek() in ('weak', 'volatile'):
            p.next()
        _, a = g.typed(p)
        p.expect(',')
        ty, b = g.typed(p)
        p.expect(',')
        _, c = g.typed(p)
        body.append(f'{D} = X.cmpxchg({a}, {b}, {c}, {ty.size})')
        return False
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        p = P(tokenize(rest), mod)
        p.attrs()
        ty, a = g.typed(p)
        p.expect(',')
        b = g.value(p, ty)
        body.append(f'{D} = X.fop({op!r}, {a}, {b})')
        return False
    if op == 'fneg':
        p = P(tokenize(rest), mod)
        p.attrs()
        ty, a = g.typed(p)
        body.append(f'{D} = -{a}')
        return False
    if op == 'fcmp':
        p = P(tokenize(rest), mod)
        p.attrs()
        pr = p.next()
        ty, a = g.typed(p)
        p.expect(',')
        b = g.value(p, ty)
        body.append(f'{D} = X.fcmp({pr!r}, {a}, {b})')
        return False
    if op == 'invoke':
        # panics abort: treat as a call followed by a jump to the normal destination
        i = t0.index(' to label ')
        emit_call(g, 'call' + t0[6:i], dst, body, dbg, '')
        m = re.match(r' to label %("[^"]*"|[\w.$-]+)', t0[i:])
        t = bidx[m.group(1).strip('"')]
        succ.append(t)
        body.append(f'return {t}')
        return True
    if op in ('landingpad', 'resume'):
        body.append(f'raise X.Unsupported({op!r})')
        return True
    raise ValueError('op ' + op)


def emit_call(g, t0, dst, body, dbg, nxt):
    mod = g.mod
    D = f'R[{g.reg(dst)}] = ' if dst else ''
    p = P(tokenize(t0), mod)
    while p.peek() in ('tail', 'call', 'musttail', 'notail'):
        p.next()
    p.attrs()
    rty = p.type()
    p.attrs()
    callee = p.next()
    if callee == 'asm':
        body.append('raise X.Unsupported("inline asm")')
        return False
    p.expect('(')
    args = []
    tys = []
    if not p.accept(')'):
        while True:
            ty = p.type()
            p.attrs()
            if ty.k == 'metadata':
                # metadata operand: ignore the rest of this argument
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                args.append('None')
            else:
                args.append(g.value(p, ty))
            tys.append(ty)
            if p.accept(')'):
                break
            p.expect(',')
    A = ', '.join(args)
    if callee[0] == '%':
        body.append(f'{D}X.call_ptr(R[{g.reg(callee)}], [{A}])')
        return False
    nm = callee[1:].strip('"')
    if nm.startswith('llvm.'):
        h = g.X.intrinsic(nm, args, tys, rty)
        if h is None:
            body.append(f'raise X.Unsupported({("intrinsic " + nm)!r})')
        elif h != '':
            body.append(D + h)
        return False
    ext = g.X.extern(nm)
    if ext is not None:
        body.append(f'{D}{g.const(ext)}({A})')
        return False
    if nxt.strip().startswith('unreachable'):
        # a diverging call: panic machinery
        loc = mod.loc(dbg) if dbg else None
        body.append(f'X.panic({nm!r}, [{A}], {dbg!r})')
        return False
    f = mod.functions.get(nm)
    if f is None:
        body.append(f'raise X.Unsupported({("external " + nm)!r})')
        return False
    body.append(f'{D}call({g.const(f)}, [{A}])')
    return False
