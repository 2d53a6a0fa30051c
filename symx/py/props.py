"""The properties: for each, the harness jobs and the reference predicates ("specs").

A spec is a generator of (label, condition) given a View.  It is evaluated three times: over the
terms of the honest symbolic execution, over an arbitrary assignment of the recorded constraint
system (forged), and over the integers of a native run when a counterexample is replayed."""
import terms as T
from terms import FP
from engine import Job

UNSAT = 2      # error code of SynthesisError::Unsatisfiable
CAP = 254


def S(xs):
    r = 0
    for x in xs:
        r = T.add(r, x)
    return r


def num(v, name, w, n=None, get=None):
    """sum of limb_i * 2^(w i)"""
    get = get or v.lc
    n = v.n(name) if n is None else n
    return S(T.scale(get(name, i), 1 << (w * i)) if get(name, i).__class__ is T.Poly else get(name, i) << (w * i)
             for i in range(n))


def inum(v, name, w, n):
    return num(v, name, w, n, v.i)


def count(v, name):
    """number of wires called name"""
    k = 0
    while (name, k) in v.lcs:
        k += 1
    return k


def mulc(a, c):
    return T.scale(a, c) if a.__class__ is T.Poly else a * c


def le_(a, b):
    return T.le(a, b)


def all_(xs):
    return T.band(*list(xs))


def digits(v, name, total, w, n):
    """every wire of `name` is the base-2^w digit of total (0 <= total < 2^(wn))"""
    return all_(T.eq(v.lc(name, i), T.slice_(total, w * i, w)) for i in range(n))


def bn(v, name, w, n, total=None, limbs=None, mod=None):
    """the generic facts about a BigNat result: the host-side witness agrees with the wires and the
    claimed parameters are true"""
    k = count(v, name)
    yield f'{name}: number of limbs', k == n and v.outs.get((name + '.n', 0)) == n
    yield f'{name}: limb width', v.outs.get((name + '.w', 0)) == w
    if k != n:
        return
    if v.honest and (name + '.v', 0) in v.outs:
        yield f'{name}: limb values match the wires', all_(T.eq(v.o(name + '.v', i), v.lc(name, i)) for i in range(n))
        if v.has(name + '.z'):
            yield f'{name}: the value matches the wires', T.eq(v.o(name + '.z'), num(v, name, w, n))
        else:
            yield f'{name}: the value is present', False
    if limbs is not None:
        for i, l in enumerate(limbs):
            yield f'{name}: limb {i}', T.eq(v.lc(name, i), l)
    if total is not None:
        yield f'{name}: value', T.eq(num(v, name, w, n), total)
    mw = v.outs[(name + '.mw', 0)]
    yield f'{name}: claimed limb bound', all_(T.le(v.lc(name, i), mw) for i in range(n))
    mb = v.outs[(name + '.min', 0)]
    if mb > 0:
        yield f'{name}: claimed minimum size', T.le(1 << (mb - 1), num(v, name, w, n))


def refuse(v, when, label='refused'):
    """the call returned an error: only when `when`"""
    yield label, T.band(T.eq(v.o('err'), UNSAT) if v.has('err') else False, when)


def accept(v, cond, label, complete=True):
    """`cond` is what the emitted constraints stand for"""
    if v.honest:
        if complete:
            yield f'{label}: accepted when true', T.implies(cond, v.sat)
        yield f'{label}: rejected when false', T.implies(v.sat, cond)
    else:
        yield f'{label}: every satisfying assignment makes it true', cond


# ============================================================================ C01 equality
def sp_equals(v):
    want = T.eq(v.i('a'), v.i('b'))
    if v.honest:
        yield 'value', T.eq(v.o('r'), T.ind(want))
        yield 'honest witness accepted', v.sat
    yield 'wire', T.eq(v.lc('r'), T.ind(want))


def sp_is_equal(v):
    p = v.params
    if p['na'] != p['nb'] or p.get('wb', p['w']) != p['w']:
        yield 'different shapes are refused', v.has('err') and T.eq(v.o('err'), UNSAT)
        return
    if v.has('err'):
        yield 'no error', False
        return
    want = all_(T.eq(v.i('a', i), v.i('b', i)) for i in range(p['na']))
    if v.honest:
        yield 'value', T.eq(v.o('r'), T.ind(want))
        yield 'honest witness accepted', v.sat
    yield 'wire', T.eq(v.lc('r'), T.ind(want))


def c01(tier):
    yield Job('equals', 'h_equals', sp_equals)
    for n in (1, 2, 3, 4, 5, 8) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16):
        yield Job(f'is_equal/{n}', 'h_is_equal', sp_is_equal, dict(na=n, nb=n, w=64))
    for w in (1, 32, 128):
        yield Job(f'is_equal/2-{w}', 'h_is_equal', sp_is_equal, dict(na=2, nb=2, w=w))
    for na, nb in ((2, 3), (1, 2), (2, 1), (3, 1), (4, 2)):
        yield Job(f'is_equal/lengths-{na},{nb}', 'h_is_equal', sp_is_equal, dict(na=na, nb=nb, w=64))
    for n in (1, 2, 3):
        yield Job(f'is_equal/widths-{n}', 'h_is_equal', sp_is_equal, dict(na=n, nb=n, w=64, wb=32))
    yield Job('is_equal/widths-up', 'h_is_equal', sp_is_equal, dict(na=2, nb=2, w=8, wb=9))


# ============================================================================ C02 comparison
def sp_cmp(op):
    def sp(v):
        want = op(v.i('a'), v.i('b'))
        if v.honest:
            yield 'value', T.eq(v.o('r'), T.ind(want))
            yield 'honest witness accepted', v.sat
        yield 'wire', T.eq(v.lc('r'), T.ind(want))
    return sp


def c02(tier):
    ns = (1, 2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 96, 120, 125, 126, 127, 128, 129, 160, 192, 200, 224, 240, 251, 252) if tier == 'quick' else range(1, 253)
    for n in ns:
        yield Job(f'less_than/{n}', 'h_less_than', sp_cmp(T.lt), dict(n_bits=n))
        yield Job(f'leq/{n}', 'h_leq', sp_cmp(T.le), dict(n_bits=n))


# ============================================================================ C03/C04 median
def cnt(xs, f):
    return S(T.ind(f(x)) for x in xs)


def sp_median(v):
    n = v.params['n']
    t = [v.i('t', i) for i in range(n)]
    m = v.o('m')
    yield 'the result is one of the timestamps', T.bor(*[T.eq(m, x) for x in t])
    yield 'at most half are smaller', T.le(cnt(t, lambda x: T.lt(x, m)), n // 2)
    yield 'more than half are at most the result', T.le(n // 2 + 1, cnt(t, lambda x: T.le(x, m)))
    yield 'the length is kept', T.eq(v.o('len'), n)


def median_is(t, m):
    n = len(t)
    return T.band(T.le(cnt(t, lambda x: T.lt(x, m)), n // 2), T.le(n // 2 + 1, cnt(t, lambda x: T.le(x, m))))


def c03(tier):
    for n in ((1, 2, 3, 4, 5, 6, 7, 9, 11) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13)):
        yield Job(f'median/{n}', 'h_median', sp_median, dict(n=n), weight=n)


def sp_verify_median(v):
    n = v.params['n']
    t = [v.i('t', i) for i in range(n)]
    want = median_is(t, v.i('m'))
    if v.honest:
        if not v.has('r'):
            yield 'a verdict is returned', False
            return
        yield 'verdict', T.eq(v.o('r'), T.ind(want))
        yield 'honest witness accepted', v.sat
    else:
        yield 'wire', T.eq(v.lc('r'), T.ind(want))


def c04(tier):
    for n in (1, 3, 5, 7, 11) if tier == 'quick' else (1, 3, 5, 7, 9, 11, 13, 15):
        yield Job(f'verify/{n}', 'h_verify_median', sp_verify_median, dict(n=n), weight=n, forged=False)
    for n in (1, 3, 5, 7, 11) if tier == 'quick' else (1, 3, 5, 7, 9, 11, 13):
        yield Job(f'verify-forged/{n}', 'h_verify_median', sp_verify_median, dict(n=n), weight=n, honest=False, ties=('t', 'm'), timeout=200 if n > 5 else None)


# ============================================================================ C05 difficulty
TWO_WEEKS = 2016 * 10 * 60


def in_window(t):
    return T.band(T.lt(TWO_WEEKS // 4, t), T.lt(t, 4 * TWO_WEEKS))


def is_quotient(q, prod):
    return T.band(T.le(mulc(q, TWO_WEEKS), prod), T.lt(prod, mulc(T.add(q, 1), TWO_WEEKS)))


def sp_verify_difficulty(v):
    cu, cl, pu, pl, t = v.i('cu'), v.i('cl'), v.inputs.get(('pu', 0), 0), v.i('pl'), v.i('t')
    cur = T.add(mulc(cu, 1 << 128), cl)
    old = T.add(mulc(pu, 1 << 128), pl)
    new = T.fdiv(T.mul(old, t), TWO_WEEKS)
    want = T.eq(cur, new)
    if v.honest:
        yield 'accepted when the target is the retarget of the old one', T.implies(want, v.sat)
        yield 'rejected otherwise', T.implies(v.sat, want)
        yield 'the timespan was in its window', in_window(t)
    else:
        yield 'only the retarget of the old target satisfies the constraints', is_quotient(cur, T.mul(old, t))
        yield 'only timespans in the window satisfy the constraints', in_window(t)


def sp_calc_difficulty(v):
    p, t = v.i('p'), v.i('t')
    if v.has('err'):
        yield 'no error', False
        return
    new = T.fdiv(T.mul(p, t), TWO_WEEKS)
    if v.honest:
        yield 'value', T.eq(v.o('r.z'), new)
        yield 'wires', T.eq(num(v, 'r', 64), new)
        yield 'honest witness accepted', v.sat
        yield 'the timespan was in its window', in_window(t)
        yield from bn(v, 'r', 64, count(v, 'r'))
    else:
        yield 'only the retarget of the old target satisfies the constraints', is_quotient(num(v, 'r', 64), T.mul(p, t))
        yield 'only timespans in the window satisfy the constraints', in_window(t)


def c05(tier):
    nw = lambda v: T.bnot(in_window(v.i('t')))
    for pb in (32, 128, 129, 224, 256) if tier == 'quick' else (8, 32, 64, 127, 128, 129, 160, 192, 200, 224, 255, 256):
        yield Job(f'verify/{pb}', 'h_verify_difficulty', sp_verify_difficulty, dict(pbits=pb), panics=nw, weight=3,
                  forged=pb > 128, ties=('cu', 'cl', 'pu', 'pl', 't'))
    for pb in (32, 64, 65, 128, 224) if tier == 'quick' else (8, 32, 63, 64, 65, 128, 129, 192, 193, 224, 240, 254):
        yield Job(f'calculate/{pb}', 'h_calc_difficulty', sp_calc_difficulty, dict(pbits=pb), panics=nw, weight=3)


# ============================================================================ C20 the header step
MED_N = 11


def header_facts(v):
    """what the rules say about a header: (conditions, outputs); the header is the bytes b, its double SHA-256
    the bits sha.256 .. sha.511 and the running state z"""
    b = lambda i: v.params['e'] if i == 75 and not v.params.get('anyexp') else v.i('b', i)
    z = lambda i: v.i('z', i)
    lebytes = lambda xs: S(mulc(x, 1 << (8 * k)) for k, x in enumerate(xs))
    prev = lebytes([b(i) for i in range(4, 36)])
    m = lebytes([b(i) for i in range(72, 75)])
    time = lebytes([b(i) for i in range(68, 72)])
    e = v.params['e']
    scale = 1 << (8 * (e - 3)) if 3 <= e <= 29 else None
    target = mulc(m, scale) if scale else None
    hash_ = None
    if ('sha', 511) in v.inputs:
        hash_ = S(mulc(v.i('sha', 256 + i), 1 << (16 * (i // 8) + 7 - i)) for i in range(256))
    ts = [z(i) for i in range(1, 12)]
    first = T.eq(z(14), 0)
    c = dict(previous=T.eq(prev, z(0)), exponent=scale is not None, sign=T.lt(m, 1 << 23), mantissa=T.lt(0, m),
             time=T.le(6, cnt(ts, lambda t: T.lt(t, time))))
    if scale:
        span = T.sub(z(11), z(13))
        new = T.fdiv(T.mul(z(12), span), TWO_WEEKS)
        c['size'] = T.lt(target, 1 << 224)
        if hash_ is not None:
            c['work'] = T.le(hash_, target)
        if v.honest:
            c['retarget'] = T.bor(T.bnot(first), T.band(in_window(span), T.le(target, new), T.lt(new, T.add(target, scale))))
        else:
            # the same, without the division: target <= floor(p / TW) iff target * TW <= p, and so on
            if ('span', 0) in v.lcs:
                c['retarget: timespan wire'] = T.bor(T.bnot(first), T.eq(v.lc('span', 0), span))
                span = v.lc('span', 0)
            p = S(mulc(T.mul(T.slice_(z(12), 64 * i, 64), span), 1 << (64 * i)) for i in range(4))
            if ('calc', 3) in v.lcs:
                calc = S(mulc(v.lc('calc', i), 1 << (64 * i)) for i in range(4))
                c['retarget: quotient'] = T.bor(T.bnot(first), is_quotient(calc, p))
                c['retarget: size'] = T.bor(T.bnot(first), T.lt(calc, 1 << 240))
                c['retarget: digits'] = T.bor(T.bnot(first), T.band(T.le(target, calc), T.lt(calc, T.add(target, scale))))
            c['retarget: timespan'] = T.bor(T.bnot(first), in_window(span))
            c['retarget: not above'] = T.bor(T.bnot(first), T.le(mulc(target, TWO_WEEKS), p))
            c['retarget: not below'] = T.bor(T.bnot(first), T.lt(p, T.add(mulc(target, TWO_WEEKS), scale * TWO_WEEKS)))
        c['target kept'] = T.bor(first, T.eq(target, z(12)))
    return c, dict(hash=hash_, ts=ts, time=time, target=target, first=first, m=m, e=e, z=z)


def header_ok(v):
    return all_(header_facts(v)[0].values())


def sp_header(v):
    c, x = header_facts(v)
    ok = all_(c.values())
    if v.has('err'):
        yield 'an error only when a rule is broken', T.bnot(ok)
        return
    yield 'SHA-256 is used twice', v.sha is not None and len(v.sha) == 2 and len(v.sha[0][0]) == 640 and len(v.sha[1][0]) == 256
    if len(v.sha) != 2:
        return
    b = lambda i: v.params['e'] if i == 75 and not v.params.get('anyexp') else v.i('b', i)
    yield 'the header is hashed', all_(T.eq(v.shabit(0, i), T.slice_(b(i // 8), 7 - i % 8, 1)) for i in range(640))
    yield 'and its hash is hashed', all_(T.eq(v.shabit(1, i), v.i('sha', i)) for i in range(256))
    yield 'sixteen outputs', count(v, 'zo') == 16
    if count(v, 'zo') != 16:
        return
    if v.honest:
        yield 'a header that obeys the rules is accepted', T.implies(ok, v.sat)
        for k, t in c.items():
            yield f'accepted only if the rule holds: {k}', T.implies(v.sat, t)
    else:
        for k, t in c.items():
            yield f'the constraints enforce the rule: {k}', t
    if x['target'] is None:
        return
    z, zo = x['z'], (lambda i: v.lc('zo', i))
    if v.honest:
        yield 'values of the outputs match the wires', all_(T.eq(v.o('zo.v', i), zo(i)) for i in range(16))
    guard = (lambda t: T.implies(v.sat, t)) if v.honest else (lambda t: t)
    yield 'new state: hash', guard(T.eq(zo(0), x['hash']))
    yield 'new state: timestamps', guard(T.band(all_(T.eq(zo(i), z(i + 1)) for i in range(1, 11)), T.eq(zo(11), x['time'])))
    yield 'new state: target', guard(T.eq(zo(12), x['target']))
    yield 'new state: start of the period', guard(T.eq(zo(13), T.ite(x['first'], x['time'], z(13))))
    yield 'new state: counter', guard(T.eq(zo(14), T.ite(T.eq(z(14), 2015), 0, T.add(z(14), 1))))
    work = T.f_canon(T.f_sub(zo(15), z(15)))
    total = 0xFFFF << (8 * (29 - x['e']))
    yield 'new state: work', guard(T.band(T.le(T.mul(work, x['m']), total), T.lt(total, T.mul(T.add(work, 1), x['m']))))


def header_gen(e, ctr0, broken=False):
    def gen(rnd):
        sh = 8 * min(max(e - 3, 0), 26)
        z = {}
        z['z', 14] = 0 if ctr0 else rnd.choice([1, 2, 480, 2014, 2015])
        top = min(1 << 23, 1 << (224 - sh)) - 1
        m = rnd.choice([1, top, rnd.randint(1, top), rnd.randint(1, top)])
        target = m << sh
        ts = [rnd.randrange(1 << 30, 1 << 31) + rnd.choice([0, 600, 1200]) for _ in range(11)]
        if rnd.random() < .5:
            base = rnd.randrange(1 << 30, 1 << 31)
            ts = [base + 600 * i + rnd.randrange(-700, 700) for i in range(11)]
        for i, t in enumerate(ts):
            z['z', i + 1] = t
        med = sorted(ts)[5]
        time = rnd.choice([med + 1, med + 600, med + rnd.randrange(1, 1 << 20)])
        z['z', 13] = ts[10] - rnd.randint(TWO_WEEKS // 4 + 1, 4 * TWO_WEEKS - 1)
        if rnd.random() < .4:
            z['z', 13] = ts[10] - TWO_WEEKS       # the retarget is the old target
        z['z', 12] = target
        if ctr0:
            span = ts[10] - z['z', 13]
            for _ in range(200):
                old = rnd.randrange(1, 1 << 24) << max(0, sh + rnd.choice([-8, 0, 0, 0]))
                new = old * span // TWO_WEEKS
                if 0 < new >> sh < min(1 << 23, 1 << (224 - sh)) and old < 1 << 224:
                    z['z', 12] = old
                    m = new >> sh
                    target = m << sh
                    break
        h = rnd.choice([target, 0, rnd.randint(0, target)])
        prev = rnd.randrange(1 << 224)
        z['z', 0] = prev
        z['z', 15] = rnd.randrange(FP)
        for i in range(32):
            z['b', 4 + i] = prev >> (8 * i) & 255
        for i in range(4):
            z['b', 68 + i] = time >> (8 * i) & 255
        for i in range(3):
            z['b', 72 + i] = m >> (8 * i) & 255
        for i in range(256):
            z['sha', 256 + i] = h >> (16 * (i // 8) + 7 - i) & 1
        return z

    def bad(rnd, k):
        """a valid header and state, but for one rule"""
        z = gen(rnd)
        word = lambda i, n: sum(z['b', i + j] << (8 * j) for j in range(n))
        m, sh = word(72, 3), 8 * min(max(e - 3, 0), 26)

        def put(i, n, x):
            for j in range(n):
                z['b', i + j] = x >> (8 * j) & 255

        def target(x):
            z['z', 12] = x if not ctr0 else z['z', 12]
        k %= 10
        if k == 0:
            put(4, 32, word(4, 32) ^ (1 << rnd.randrange(256)))
        elif k == 1:
            put(68, 4, sorted(z['z', i] for i in range(1, 12))[5] - rnd.choice([0, 0, 1, 1000]))
        elif k == 2:
            h = (m << sh) + rnd.choice([1, 1, 1 << 30, 1 << 200])
            for i in range(256):
                z['sha', 256 + i] = h >> (16 * (i // 8) + 7 - i) & 1
        elif k == 3:
            put(72, 3, m | 1 << 23)
            target((m | 1 << 23) << sh)
        elif k == 4:
            put(72, 3, 0)
            z['z', 12] = 0
            for i in range(256):
                z['sha', 256 + i] = 0
        elif k == 5:
            z['z', 13] = z['z', 11] - rnd.choice([TWO_WEEKS // 4, 4 * TWO_WEEKS, 4 * TWO_WEEKS + 1, 1, 0, -5])
        elif k == 6 or k == 7:
            z['z', 12] += rnd.choice([1, -1, 1 << sh, -(1 << sh)]) if z['z', 12] > 1 << sh else 1
        elif k == 8:
            put(72, 3, max(1, m + rnd.choice([1, -1, 2])))
        else:
            put(72, 3, (1 << 23) - 1)
            target((1 << 23) - 1 << sh)
        if not ctr0 and rnd.random() < .5:
            z['z', 14] = rnd.choice([1, 480, 2015, 2016, 2047])
        return z
    return bad if broken else gen


def header_finds(v):
    span = T.f_canon(T.f_sub(v.i('z', 11), v.i('z', 13)))
    new = T.fdiv(T.mul(v.i('z', 12), span), TWO_WEEKS)
    return {('span', 0): span, **{('calc', i): T.slice_(new, 64 * i, 64) for i in range(4)}}


def sp_initial(v):
    z = [v.o('z', i) for i in range(16)]
    yield 'sixteen values', v.has('z', 15) and not v.has('z', 16)
    yield 'the hash of block 123455', T.eq(z[0], 0xB60BC96A44724FD72DAF9B92CF8AD00510B5224C6253AC40095)
    yield 'its target', T.eq(z[12], 0x6A93B3 << (8 * (0x1A - 3)))
    yield 'the state is in the range of the step', all_([T.lt(z[0], 1 << 224), T.lt(z[12], 1 << 224), *(T.lt(z[i], 1 << 32) for i in [*range(1, 12), 13])])
    yield 'the block of the period', T.eq(z[14], 123456 % 2016)
    yield 'a period starts before its blocks', T.lt(z[13], z[11])
    yield 'no work yet', T.eq(z[15], 0)


def c20(tier):
    base = dict(hbits=224, tbits=224)
    opt = dict(panics=lambda v: T.bnot(header_ok(v)), tie_sha=True, lemmas=True, context=True)
    q = tier == 'quick'
    for e in (27, 3) if q else range(3, 30):
        yield Job(f'step/{e}-first', 'h_header_step', sp_header, dict(e=e, **base), weight=40, gen=header_gen(e, 1), gen_bad=header_gen(e, 1, True), fixed={('z', 14): 0}, zeros=True, finds=header_finds, **opt)
    for e in (27, 29) if q else range(3, 30):
        yield Job(f'step/{e}-other', 'h_header_step', sp_header, dict(e=e, **base), weight=30, gen=header_gen(e, 0), gen_bad=header_gen(e, 0, True), assume=lambda v: T.lt(0, v.i('z', 14)), **opt)
    for e in (2, 30) if q else (0, 1, 2, 30, 31, 32, 34, 35, 63, 64, 127, 128, 224, 255):
        yield Job(f'step/{e}-refused', 'h_header_step', sp_header, dict(e=e, **base), weight=30, gen=header_gen(e, 0), may_panic=True, **opt)
    yield Job('initial', 'h_initial_state', sp_initial, {})


# ============================================================================ C06 limb codec
def sp_nat_to_limbs(v):
    w, n, z = v.params['w'], v.params['n'], v.i('z')
    fits = T.lt(z, 1 << (w * n))
    if v.has('err'):
        yield from refuse(v, T.bnot(fits), 'refused only when too large')
        return
    yield 'accepted only when it fits', fits
    yield 'number of limbs', T.eq(v.o('len'), n)
    yield 'limbs are the digits', T.implies(fits, T.eq(z, S(mulc(v.o('l', i), 1 << (w * i)) for i in range(n))))
    yield 'limbs are in range', all_(T.lt(v.o('l', i), 1 << w) for i in range(n))


def sp_limbs_to_nat(v):
    w, n = v.params['w'], v.params['n']
    yield 'value', T.eq(v.o('z'), S(mulc(v.i('l', i), 1 << (w * i)) for i in range(n)))


def sp_alloc_from_nat(v):
    w, n, z = v.params['w'], v.params['n'], v.i('z')
    fits = T.lt(z, 1 << (w * n))
    if v.has('err'):
        yield 'refused only when too large', T.bnot(fits)
        return
    if v.honest:
        yield 'accepted only when it fits', fits
        yield from bn(v, 'r', w, n, total=z)
        yield 'value kept', T.eq(v.o('r.z'), z)
        yield 'no constraint is emitted', len(v.cons) == 0
        yield 'claimed limb bound is 2^w - 1', T.eq(v.o('r.mw'), (1 << w) - 1)


def sp_alloc_from_limbs(v):
    w, n, k = v.params['w'], v.params['n'], v.params['k']
    if n != k:
        yield 'a wrong number of limbs is refused', v.has('err')
        return
    if v.has('err'):
        yield 'no error', False
        return
    yield from bn(v, 'r', w, n, limbs=[v.i('l', i) for i in range(n)])


def sp_from_limbs(v):
    w, n = v.params['w'], v.params['n']
    yield from bn(v, 'r', w, n, limbs=[v.i('l', i) for i in range(n)])
    yield 'read back', all_(T.eq(v.lc('al', i), v.i('l', i)) for i in range(n))
    if v.honest:
        yield 'read back values', all_(T.eq(v.o('al.v', i), v.i('l', i)) for i in range(n))


def c06(tier):
    cfg = [(8, 1), (8, 3), (32, 4), (64, 1), (64, 2), (64, 3), (64, 4), (64, 6), (32, 8), (1, 8), (128, 2), (13, 5), (254, 1), (240, 2), (65, 2), (7, 9)]
    if tier != 'quick':
        cfg += [(64, 8), (32, 32), (5, 50), (100, 7), (200, 3), (64, 32), (1, 64)]
    for w, n in cfg:
        yield Job(f'to_limbs/{w}x{n}', 'h_nat_to_limbs', sp_nat_to_limbs, dict(w=w, n=n, zbits=w * n + w))
        yield Job(f'to_nat/{w}x{n}', 'h_limbs_to_nat', sp_limbs_to_nat, dict(w=w, n=n, bits=0))
        yield Job(f'alloc/{w}x{n}', 'h_alloc_from_nat', sp_alloc_from_nat, dict(w=w, n=n, zbits=w * n + 3), forged=False)
    for w, n in ((8, 3), (64, 4), (64, 1), (32, 2)):
        for k in sorted({0, n - 1, n, n + 1, 2 * n, 2 * n + 1}):
            yield Job(f'alloc_limbs/{w}x{n}-{k}', 'h_alloc_from_limbs', sp_alloc_from_limbs, dict(w=w, n=n, k=k, bits=w))
        yield Job(f'from_limbs/{w}x{n}', 'h_from_limbs', sp_from_limbs, dict(w=w, n=n, bits=w))


# ============================================================================ C07 range checks
def sp_fits(v):
    if v.has('err'):
        yield 'no error', False
        return
    yield from accept(v, T.lt(v.i('a'), 1 << v.params['n']), 'fits')


def sp_well_formed(v):
    if v.has('err'):
        yield 'no error', False
        return
    p = v.params
    yield from accept(v, all_(T.lt(v.i('a', i), 1 << p['w']) for i in range(p['n'])), 'well formed')


def c07(tier):
    ns = (1, 2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 224, 252, 253, 254) if tier == 'quick' else range(1, 255)
    for n in ns:
        yield Job(f'fits/{n}', 'h_fits', sp_fits, dict(n=n, bits=0), weight=n / 60)
    cfg = ((8, 1), (8, 2), (8, 3), (8, 5), (64, 2), (64, 4), (1, 3), (2, 2), (128, 1), (128, 2)) if tier == 'quick' else ((8, 3), (64, 2), (1, 3), (128, 1), (64, 4), (32, 8), (254, 2), (8, 32), (64, 8), (1, 64), (200, 3))
    for w, n in cfg:
        yield Job(f'well_formed/{w}x{n}', 'h_well_formed', sp_well_formed, dict(w=w, n=n, bits=0), weight=w * n / 60)


# ============================================================================ C08 bit decomposition
def sp_decompose(v):
    n, a = v.params['n'], v.i('a')
    if v.has('err'):
        yield 'no error', False
        return
    fits = T.lt(a, 1 << n)
    yield 'number of bits', count(v, 'b') == n and count(v, 'b.a') == n
    if v.honest:
        yield 'accepted when it fits', T.implies(fits, v.sat)
        yield 'rejected when it does not', T.implies(v.sat, fits)
        yield 'bit values', all_(T.eq(v.o('b.v', i), T.slice_(a, i, 1)) for i in range(n))
        yield 'bit wires', all_(T.eq(v.lc('b', i), T.slice_(a, i, 1)) for i in range(n))
        yield 'allocated bits', all_(T.eq(v.lc('b.a', i), v.lc('b', i)) for i in range(n))
    else:
        yield 'every satisfying assignment makes it fit', fits
        for i in {0, n - 1}:
            yield f'bit wire {i}', T.implies(fits, T.eq(v.lc('b', i), T.slice_(a, i, 1)))
        yield 'bits are boolean and sum to the number', T.band(
            T.eq(S(mulc(v.lc('b', i), 1 << i) for i in range(n)), a), *[T.le(v.lc('b', i), 1) for i in range(n)])


def sp_bn_decompose(v):
    w, n, rw = v.params['w'], v.params['n'], v.params['rw']
    if v.has('err'):
        yield 'no error', False
        return
    fits = all_(T.lt(v.i('a', i), 1 << w) for i in range(n))
    a = inum(v, 'a', w, n)
    yield 'number of bits', count(v, 'b') == w * n
    m = -(-w * n // rw)
    if v.honest:
        yield 'accepted when the limbs fit', T.implies(fits, v.sat)
        yield 'rejected when they do not', T.implies(v.sat, fits)
        yield 'bit values', all_(T.implies(fits, T.eq(v.o('b.v', i), T.slice_(a, i, 1))) for i in range(w * n))
        yield 'bit wires', all_(T.implies(fits, T.eq(v.lc('b', i), T.slice_(a, i, 1))) for i in range(w * n))
        yield 'recomposed value', T.implies(fits, T.eq(v.o('r.z'), a))
        yield 'recomposed limb values', all_(T.eq(v.o('r.v', i), v.lc('r', i)) for i in range(m))
    else:
        yield 'every satisfying assignment fits', fits
        yield 'bits are boolean and sum to the number', T.band(
            T.eq(S(mulc(v.lc('b', i), 1 << i) for i in range(n * w)), a), *[T.le(v.lc('b', i), 1) for i in range(n * w)])
    yield 'recomposed limbs', count(v, 'r') == m and v.outs.get(('r.w', 0)) == rw and v.outs.get(('r.n', 0)) == m
    yield 'recomposed wires', T.implies(fits, T.eq(num(v, 'r', rw, m), a))
    yield 'recomposed limb bound', all_(T.le(v.lc('r', i), v.outs[('r.mw', 0)]) for i in range(m))


def sp_recompose(v):
    n, rw = v.params['n'], v.params['rw']
    yield from bn(v, 'r', rw, -(-n // rw), total=S(mulc(v.i('x', i), 1 << i) for i in range(n)))


def sp_num_is_equal(v):
    if v.has('err'):
        yield 'no error', False
        return
    n = v.params['n']
    yield from accept(v, T.eq(v.i('a'), S(mulc(v.i('x', i), 1 << i) for i in range(n))), 'equal')


def c08(tier):
    for n in (1, 2, 3, 5, 8, 16, 32, 33, 64, 65, 128, 253, 254) if tier == 'quick' else (*range(1, 70), 100, 127, 128, 129, 160, 192, 224, 250, 251, 252, 253, 254):
        yield Job(f'decompose/{n}', 'h_decompose', sp_decompose, dict(n=n, bits=0), weight=n / 40)
    for w, n, rw in ((8, 3, 12), (4, 3, 4), (32, 2, 64), (5, 4, 7), (8, 1, 8), (8, 1, 3), (1, 4, 2), (1, 1, 1), (64, 2, 32), (16, 2, 33)) if tier == 'quick' else \
            ((8, 3, 12), (4, 3, 4), (32, 2, 64), (5, 4, 7), (64, 3, 32), (8, 8, 1), (64, 2, 128)):
        yield Job(f'bignat/{w}x{n}-{rw}', 'h_bn_decompose', sp_bn_decompose, dict(w=w, n=n, rw=rw, bits=0), weight=w * n / 30)
    for n, rw in ((8, 3), (9, 3), (16, 16), (1, 4), (64, 32), (7, 3), (10, 3), (3, 1), (128, 64), (100, 254)):
        yield Job(f'recompose/{n}-{rw}', 'h_recompose', sp_recompose, dict(n=n, rw=rw))
    for n in (1, 2, 8, 32, 64, 253, 254):
        yield Job(f'is_equal/{n}', 'h_num_is_equal', sp_num_is_equal, dict(n=n), weight=n / 60)


# ============================================================================ C09 field element to limbs
def sp_from_num(v):
    w, n, a = v.params['w'], v.params['n'], v.i('a')
    fits = T.lt(a, 1 << (w * n))
    if v.has('err'):
        yield 'refused only when too large', T.bnot(fits)
        return
    if v.honest:
        yield 'honest witness accepted', T.implies(fits, v.sat)
    if v.honest or w * n < CAP + 1:
        yield from bn(v, 'r', w, n, total=a)
    else:
        # the limbs can also hold the element plus the field modulus
        yield from bn(v, 'r', w, n)
        yield 'r: value up to the field modulus', T.f_eq(num(v, 'r', w, n), a)
        yield 'r: limbs in range', in_range(v, 'r', w)


def sp_as_sapling(v):
    e = T.f_canon(T.f_add(v.i('a'), T.f_mul(2, v.i('b'))))
    if v.has('err'):
        yield 'no error', False
        return
    if v.honest:
        yield 'honest witness accepted', v.sat
        yield 'value', T.eq(v.o('r.v'), e)
        yield 'number value', T.eq(v.o('n.v'), v.i('c'))
    yield 'wire', T.eq(v.lc('r'), e)
    yield 'number wire', T.eq(v.lc('n'), v.i('c'))


def c09(tier):
    for w, n, bits in ((64, 2, 128), (64, 1, 64), (64, 3, 0), (64, 4, 0), (64, 4, 224), (32, 4, 140), (32, 8, 0), (85, 3, 0), (128, 2, 0), (127, 2, 0), (254, 1, 0), (128, 1, 128),
                       (8, 1, 8), (8, 3, 24), (1, 5, 0), (3, 4, 0), (64, 5, 0)) if tier == 'quick' else \
            ((64, 2, 128), (64, 1, 64), (64, 3, 0), (32, 4, 140), (128, 1, 128), (8, 3, 24), (1, 12, 16), (100, 2, 0), (32, 7, 0), (120, 2, 0), (64, 4, 0), (32, 8, 0), (16, 16, 0),
             (8, 32, 0), (128, 2, 0), (254, 1, 0), (253, 1, 0), (64, 6, 0), (85, 3, 0), (84, 3, 0), (50, 5, 0), (51, 5, 0)):
        yield Job(f'from_num/{w}x{n}-{bits}', 'h_from_num', sp_from_num, dict(w=w, n=n, bits=bits), weight=w * n / 60)
    yield Job('allocated', 'h_as_sapling', sp_as_sapling)


# ============================================================================ shared pieces for numbers
def bl(b):
    """largest value of a field of b bits (0: any field element)"""
    return (1 << b) - 1 if b else FP - 1


def claim(v, name, w, n, k):
    """precondition: the declared minimum size k of operand `name` is true"""
    return T.le(1 << (k - 1), inum(v, name, w, n)) if k else True


def two_ok(v):
    p = v.params
    return all_([claim(v, 'a', p['w'], p['na'], p.get('amin', 0)), claim(v, 'b', p['w'], p['nb'], p.get('bmin', 0))])


def noerr(v):
    if v.has('err'):
        yield 'no error', False


def honest_ok(v):
    if v.honest:
        yield 'honest witness accepted', v.sat


# ============================================================================ C10 carried equality
def sp_eq_nat(kind):
    def sp(v):
        p = v.params
        w, na, nb = p['w'], p['na'], p['nb']
        yield from noerr(v)
        if v.has('err'):
            return
        k = min(na, nb)
        longer, n = ('a', na) if na > nb else ('b', nb)
        if kind == 'limbs':
            # limbs beyond the shorter number have to be zero
            want = T.band(all_([T.eq(v.i('a', i), v.i('b', i)) for i in range(k)]), all_([T.eq(v.i(longer, i), 0) for i in range(k, n)]))
        else:
            want = T.eq(inum(v, 'a', w, na), inum(v, 'b', w, nb))
        yield from accept(v, want, 'equal')
    return sp


def mk2(w, na, nb, abits, bbits=None, mwbits=0, **kw):
    return dict(w=w, na=na, nb=nb, abits=abits, bbits=abits if bbits is None else bbits, mwbits=mwbits, **kw)


def gen_equal(p):
    """validation inputs of equal value"""
    def g(rnd):
        w, na, nb = p['w'], p['na'], p['nb']
        out = {('b', i): rnd.randrange(1 << min(w, p['bbits'])) for i in range(nb)}
        z = sum(out['b', i] << (w * i) for i in range(nb))
        if z >> (w * na):
            return {}
        for i in range(na):
            out['a', i] = z >> (w * i) & ((1 << w) - 1)
        for k in range(na - 1):      # move carries down within the declared bound
            if out['a', k + 1] and out['a', k] + (1 << w) < 1 << p['abits'] and rnd.random() < .6:
                out['a', k + 1] -= 1
                out['a', k] += 1 << w
        return out
    return g


def c10(tier):
    q = tier == 'quick'
    m = 4 if q else 6
    for na in range(1, m + 1):
        for nb in range(1, m + 1):
            yield Job(f'equal/64x{na},{nb}', 'h_equal', sp_eq_nat('limbs'), mk2(64, na, nb, 0))
    for w, na, nb in ((8, 4, 4), (64, 1, 2), (1, 3, 3)) if q else ((8, 4, 4), (64, 1, 2), (1, 3, 3), (32, 8, 8)):
        yield Job(f'equal/{w}x{na},{nb}-in-range', 'h_equal', sp_eq_nat('limbs'), mk2(w, na, nb, w))
    cfg = [(64, 2, 2, 64, 0), (64, 2, 2, 66, 66), (64, 3, 3, 130, 130), (8, 3, 3, 8, 0), (8, 3, 2, 11, 11), (8, 4, 4, 20, 20), (32, 3, 4, 70, 70),
           (64, 1, 1, 64, 0), (64, 1, 3, 64, 0), (64, 2, 2, 65, 65)]
    if not q:
        cfg += [(64, 4, 4, 131, 131), (64, 8, 8, 131, 131), (16, 6, 6, 34, 34), (1, 8, 8, 3, 3), (32, 8, 8, 67, 67), (100, 3, 3, 202, 202)]
    for w, na, nb, b, mw in cfg:
        p = mk2(w, na, nb, b, mwbits=mw)
        yield Job(f'carried/{w}x{na},{nb}-{b}', 'h_ewc', sp_eq_nat('value'), p, gen=gen_equal(p), weight=na)
    asym = [(w, na, nb, ab, bb) for w in ((8,) if q else (8, 64)) for na in (1, 2, 3) for nb in (1, 2, 3) for ab, bb in ((w, w + 4), (w + 9, w), (w + 9, w + 1))] + \
        [(64, 2, 3, 131, 64), (64, 3, 2, 64, 131), (64, 2, 2, 64, 128), (64, 4, 2, 70, 130), (64, 2, 4, 64, 64)]
    for w, na, nb, ab, bb in asym:
        p = mk2(w, na, nb, ab, bb, amw=ab, bmw=bb)
        yield Job(f'carried/{w}x{na},{nb}-{ab},{bb}', 'h_ewc', sp_eq_nat('value'), p, gen=gen_equal(p), weight=na)
    cfg = [(64, 2, 2, 64, 0), (64, 3, 3, 130, 130), (32, 8, 8, 32, 0), (32, 5, 8, 66, 66), (8, 40, 40, 8, 0), (8, 33, 33, 18, 18), (64, 4, 4, 66, 66)]
    if not q:
        cfg += [(64, 8, 8, 131, 131), (32, 16, 16, 68, 68), (16, 30, 30, 36, 36)]
    for w, na, nb, b, mw in cfg:
        p = mk2(w, na, nb, b, mwbits=mw)
        yield Job(f'regroup/{w}x{na},{nb}-{b}', 'h_ewcr', sp_eq_nat('value'), p, gen=gen_equal(p), weight=na)
    cfg = [(32, 8, 5, 32, 66), (32, 5, 8, 66, 32), (32, 8, 1, 32, 32), (32, 1, 8, 40, 32), (64, 4, 2, 64, 130), (64, 2, 4, 66, 64), (8, 30, 33, 8, 18), (100, 3, 2, 100, 110), (120, 2, 2, 120, 121), (16, 14, 15, 20, 16)]
    for w, na, nb, ab, bb in cfg:
        p = mk2(w, na, nb, ab, bb, amw=ab, bmw=bb)
        yield Job(f'regroup/{w}x{na},{nb}-{ab},{bb}', 'h_ewcr', sp_eq_nat('value'), p, gen=gen_equal(p), weight=na)


# ============================================================================ C11 products
def sp_mult(v):
    p = v.params
    w, n = p['w'], p['na'] + p['nb']
    if v.has('err'):
        yield 'refused only when the product has no place', T.le(1 << (w * n), T.mul(inum(v, 'a', w, p['na']), inum(v, 'b', w, p['nb'])))
        return
    yield from honest_ok(v)
    yield from bn(v, 'r', w, n, total=T.mul(inum(v, 'a', w, p['na']), inum(v, 'b', w, p['nb'])))


def sp_divides(v):
    p = v.params
    w = p['w']
    a, b = inum(v, 'a', w, p['na']), inum(v, 'b', w, p['nb'])
    if v.honest:
        div = T.band(T.lt(0, a), T.eq(T.fmod(b, a), 0))
        if v.has('err'):
            yield 'refused only when it does not divide', T.bnot(div)
            return
        yield 'accepted only when it divides', T.implies(v.sat, div)
        yield 'honest witness accepted', T.implies(div, v.sat)
    elif v.hlc('f'):
        # the wires that carry the quotient
        yield 'a quotient exists', T.eq(T.mul(a, num(v, 'f', w, count(v, 'f'))), b)
    else:
        yield 'a quotient exists', T.eq(T.fmod(b, a), 0)


def gen_multiple(w, na, nb):
    def g(rnd):
        a = rnd.getrandbits(rnd.randrange(1, w * na + 1)) or 1
        b = a * rnd.getrandbits(max(1, w * nb - a.bit_length()))
        if b >> (w * nb):
            return {}
        m = (1 << w) - 1
        return {**{('a', i): a >> (w * i) & m for i in range(na)}, **{('b', i): b >> (w * i) & m for i in range(nb)}}
    return g


def find_quotient(x, y, name='f'):
    """the wires that hold the limbs of floor(x/y)"""
    def f(v):
        p = v.params
        w = p['w']
        q = T.fdiv(x(v), y(v))
        return {(name, i): T.slice_(q, w * i, w) for i in range(p['na'] + p['nb'])}
    return f


def c11(tier):
    q = tier == 'quick'
    cfg = [(64, na, nb) for na in (1, 2, 3) for nb in (1, 2, 3)] + [(32, 2, 3), (32, 1, 4), (8, 3, 3), (100, 2, 1), (120, 1, 1), (1, 3, 2)] if q else [(64, na, nb) for na in (1, 2, 3, 4) for nb in (1, 2, 3, 4)] + [ (32, 2, 3), (32, 8, 8), (8, 3, 3), (100, 2, 1), (120, 1, 1), (1, 5, 4)]
    for w, na, nb in cfg:
        yield Job(f'mult/{w}x{na},{nb}', 'h_mult', sp_mult, mk2(w, na, nb, w), weight=na * nb)
    yield Job('mult/loose', 'h_mult', sp_mult, mk2(32, 2, 3, 40, mwbits=40))
    for w, na, nb, ab, bb in ((32, 2, 2, 32, 40), (32, 3, 2, 45, 32), (64, 1, 2, 100, 64), (8, 2, 3, 8, 9)):
        yield Job(f'mult/loose-{w}x{na},{nb}-{ab},{bb}', 'h_mult', sp_mult, mk2(w, na, nb, ab, bb, amw=ab, bmw=bb), weight=na * nb)
    for w, na, nb in [(64, 1, 1), (64, 1, 2), (64, 2, 2), (64, 2, 1), (64, 1, 3), (64, 2, 3), (8, 2, 3), (8, 3, 3), (32, 1, 2)] if q else [(64, 1, 1), (64, 1, 2), (64, 2, 2), (8, 2, 3), (32, 3, 3), (64, 2, 4), (64, 3, 1), (16, 4, 8)]:
        yield Job(f'divides/{w}x{na},{nb}', 'h_divides', sp_divides, mk2(w, na, nb, w), weight=na * nb,
                  panics=lambda v, w=w, na=na: T.eq(inum(v, 'a', w, na), 0),
                  finds=find_quotient(lambda v: inum(v, 'b', v.params['w'], v.params['nb']), lambda v: inum(v, 'a', v.params['w'], v.params['na'])),
                  gen=gen_multiple(w, na, nb))
    for na, nb, am, bm in ((2, 2, 20, 30), (2, 1, 17, 16), (1, 3, 1, 48), (2, 2, 0, 32), (2, 2, 32, 0)):
        yield Job(f'mult/min-{na},{nb}-{am},{bm}', 'h_mult', sp_mult, mk2(16, na, nb, 16, amin=am, bmin=bm), assume=two_ok)


# ============================================================================ C12 modular products
def product(v):
    """the number that is reduced"""
    p = v.params
    a = inum(v, 'a', p['w'], p['na'])
    return T.mul(a, inum(v, 'b', p['w'], p['nb'])) if p.get('nb') else a


def modulus(v):
    p = v.params
    return inum(v, 'm', p['w'], p['nm'])


def in_range(v, name, w):
    return all_(T.lt(v.lc(name, i), 1 << w) for i in range(count(v, name)))


def sp_mod(v):
    p = v.params
    w, nm = p['w'], p['nm']
    x, m = product(v), modulus(v)
    if v.has('err'):
        yield 'no error', False
        return
    if v.honest:
        yield from honest_ok(v)
        q, r = T.fdiv(x, m), T.fmod(x, m)
        yield 'remainder', T.eq(v.o('r.z'), r)
        yield 'remainder wires', T.eq(num(v, 'r', w, nm), r)
        yield from bn(v, 'r', w, nm)
        if p.get('nb'):
            yield 'quotient', T.eq(v.o('q.z'), q)
            yield 'quotient wires', T.eq(num(v, 'q', w), q)
            yield from bn(v, 'q', w, count(v, 'q'))
    else:
        nq = 'q' if p.get('nb') else 'f'
        if not v.hlc(nq) and p.get('mmin', 0) <= w * p['na']:
            raise T.Unsupported('no quotient wires')      # otherwise the quotient is zero
        yield 'quotient and remainder in range', T.band(in_range(v, 'r', w), in_range(v, nq, w))
        yield 'product = quotient * modulus + remainder', T.eq(x, T.add(T.mul(num(v, nq, w, count(v, nq)), m), num(v, 'r', w, nm)))


def sp_product_mod(v):
    p = v.params
    w, nm = p['w'], p['nm']
    x, m, r = product(v), modulus(v), inum(v, 'r', w, nm)
    if v.has('err'):
        yield 'no error', False
        return
    if v.honest:
        q = T.fdiv(x, m)
        yield 'quotient', T.eq(v.o('q.z'), q)
        yield 'quotient wires', T.eq(num(v, 'q', w), q)
        yield 'accepted when it is the remainder', T.implies(T.eq(r, T.fmod(x, m)), v.sat)
        yield 'rejected when it is not congruent', T.implies(v.sat, T.eq(x, T.add(T.mul(q, m), r)))
    else:
        yield 'quotient in range', in_range(v, 'q', w)
        yield 'product = quotient * modulus + remainder', T.eq(x, T.add(T.mul(num(v, 'q', w), m), r))


def m_ok(v):
    p = v.params
    return claim(v, 'm', p['w'], p['nm'], p.get('mmin', 0))


def gen_mod(p):
    """validation inputs with non-trivial quotients; the claimed remainder is right half of the time"""
    def g(rnd):
        w = p['w']
        k = (1 << w) - 1
        out = {}
        z = {}
        for nm in ('a', 'b', 'm'):
            n = p.get('n' + nm, 0)
            z[nm] = rnd.getrandbits(rnd.randrange(1, w * n + 1)) if n else 1
            if nm == 'm':
                z[nm] = max(1, z[nm]) | ((1 << p['mmin'] - 1) if p.get('mmin') else 0)
            for i in range(n):
                out[nm, i] = z[nm] >> (w * i) & k
        r = z['a'] * z['b'] % z['m']
        for i in range(p['nm']):
            out['r', i] = r >> (w * i) & k
        return out
    return g


def c12(tier):
    q = tier == 'quick'
    zero = lambda v: T.eq(modulus(v), 0)
    cfg = [(64, 1, 1, 1, 0), (64, 2, 2, 2, 0), (64, 2, 2, 2, 128), (8, 1, 1, 1, 8), (8, 2, 2, 2, 12), (32, 2, 1, 2, 40), (64, 2, 2, 1, 60),
           (64, 2, 1, 1, 0), (64, 1, 2, 2, 0), (64, 1, 1, 2, 0), (64, 4, 1, 1, 0), (8, 1, 2, 1, 3), (8, 2, 2, 1, 0), (8, 1, 1, 3, 20), (32, 3, 2, 2, 0)]
    if not q:
        cfg += [(64, 3, 3, 3, 0), (64, 4, 4, 4, 256), (32, 4, 4, 4, 0), (8, 3, 3, 2, 10), (8, 4, 4, 4, 32), (100, 1, 1, 1, 0), (16, 2, 3, 4, 50)]
    for w, na, nb, nm, mm in cfg:
        p = mk2(w, na, nb, w, nm=nm, mbits=w, mmin=mm)
        yield Job(f'mult/{w}x{na},{nb},{nm}-{mm}', 'h_mult_mod', sp_mod, p, panics=zero, assume=m_ok, gen=gen_mod(p), weight=na * nb)
        if mm == 0:
            yield Job(f'assert/{w}x{na},{nb},{nm}', 'h_assert_product_mod', sp_product_mod, p, panics=zero, gen=gen_mod(p), weight=na * nb)
    for w, na, nb, nm, mm, b in [(32, 2, 2, 2, 0, 40), (8, 2, 2, 2, 14, 9), (8, 2, 2, 2, 11, 9), (32, 1, 2, 1, 0, 33), (16, 2, 1, 2, 20, 30)]:
        p = mk2(w, na, nb, b, mwbits=b, nm=nm, mbits=w, mmin=mm)
        yield Job(f'mult-loose/{w}x{na},{nb},{nm}-{mm}', 'h_mult_mod', sp_mod, p, panics=zero, assume=m_ok, gen=gen_mod(p), weight=na * nb)
    cfg = [(64, 6, 3, 192), (64, 1, 1, 0), (64, 1, 2, 0), (64, 2, 2, 0), (64, 3, 1, 33), (64, 3, 2, 0), (8, 3, 1, 0), (64, 2, 1, 0), (64, 2, 2, 128), (64, 4, 2, 128), (8, 4, 2, 9), (8, 2, 3, 20), (32, 5, 3, 66)]
    if not q:
        cfg += [(64, 5, 2, 0), (64, 6, 2, 128), (32, 8, 4, 128), (32, 7, 3, 0), (16, 9, 4, 64), (1, 8, 4, 3)]
    for w, na, nm, mm in cfg:
        p = dict(w=w, na=na, nm=nm, abits=w, mbits=w, mmin=mm)
        yield Job(f'reduce/{w}x{na},{nm}-{mm}', 'h_red_mod', sp_mod, p, panics=zero, assume=m_ok, gen=gen_mod(p), weight=na,
                  finds=lambda v: {('f', i): T.slice_(T.fdiv(product(v), modulus(v)), v.params['w'] * i, v.params['w'])
                                   for i in range(v.params['na'] + 1)})


# ============================================================================ C13 addition, subtraction
def sp_add(v):
    p = v.params
    w, na, nb = p['w'], p['na'], p['nb']
    if v.has('err'):
        yield 'no error', False
        return
    n = max(na, nb)
    z = lambda x, i, k: v.i(x, i) if i < k else 0
    if not v.honest:
        return
    yield 'no constraint is emitted', len(v.cons) == 0
    yield from bn(v, 'r', w, n, limbs=[T.f_canon(T.f_add(z('a', i, na), z('b', i, nb))) for i in range(n)])


def sp_sub(v):
    p = v.params
    w, na, nb = p['w'], p['na'], p['nb']
    a, b = inum(v, 'a', w, na), inum(v, 'b', w, nb)
    if v.has('err'):
        yield 'refused only when the difference is negative or too large', T.bor(T.lt(a, b), T.le(1 << (w * na), T.sub(a, b)))
        return
    if v.honest:
        yield 'accepted only when the difference is not negative', T.implies(v.sat, T.le(b, a))
        yield 'honest witness accepted', T.implies(T.le(b, a), v.sat)
        for l, c in bn(v, 'r', w, na, total=T.sub(a, b)):
            yield l, T.implies(T.le(b, a), c)
    else:
        yield 'the difference and the subtrahend give the minuend', T.eq(T.add(b, num(v, 'r', w, na)), a)
        yield from bn(v, 'r', w, na)


def c13(tier):
    q = tier == 'quick'
    m = 4 if q else 6
    for na in range(1, m + 1):
        for nb in range(1, m + 1):
            yield Job(f'add/64x{na},{nb}', 'h_add', sp_add, mk2(64, na, nb, 64, mwbits=64))
    for w, na, nb, ab, bb in ((32, 1, 4, 40, 40), (8, 3, 3, 8, 8), (32, 2, 2, 32, 50), (32, 3, 2, 60, 33), (64, 1, 2, 253, 64), (64, 2, 1, 65, 253)):
        yield Job(f'add/{w}x{na},{nb}-{ab},{bb}', 'h_add', sp_add, mk2(w, na, nb, ab, bb, amw=ab, bmw=bb))
    for na, nb, am, bm in ((2, 3, 20, 37), (2, 3, 20, 0), (3, 2, 0, 20), (1, 1, 16, 16), (2, 2, 30, 20), (2, 2, 20, 30), (3, 1, 48, 1)):
        yield Job(f'add/min-{na},{nb}-{am},{bm}', 'h_add', sp_add, mk2(16, na, nb, 16, mwbits=16, amin=am, bmin=bm), assume=two_ok)
    for w, na, nb in [(64, na, nb) for na in range(1, m + 1) for nb in range(1, m + 1)] + [(32, 3, 2), (8, 3, 3), (16, 2, 3), (1, 4, 4), (100, 2, 2)] + ([] if q else [(64, 8, 8), (32, 8, 8)]):
        yield Job(f'sub/{w}x{na},{nb}', 'h_sub', sp_sub, mk2(w, na, nb, w), weight=na)


# ============================================================================ C14 reshaping
def one_ok(v):
    p = v.params
    return claim(v, 'a', p['w'], p['n'], p.get('amin', 0))


def sp_concat(v):
    p = v.params
    if v.has('err'):
        yield 'no error', False
        return
    na, nb = p['na'], p['nb']
    yield from bn(v, 'r', p['w'], na + nb, limbs=[v.i('b', i) for i in range(nb)] + [v.i('a', i) for i in range(na)])


def sp_truncate(v):
    p = v.params
    k = min(p['k'], p['n'])
    yield from bn(v, 'r', p['w'], k, limbs=[v.i('a', i) for i in range(k)])


def sp_group(v):
    p = v.params
    w, n, k = p['w'], p['n'], p['k']
    yield from bn(v, 'r', w * k, -(-n // k), limbs=[
        S(mulc(v.i('a', i), 1 << (w * (i - g))) for i in range(g, min(n, g + k))) for g in range(0, n, k)])


def sp_with_n(v):
    p = v.params
    yield 'only upwards', p['k'] >= p['n']
    yield from bn(v, 'r', p['w'], p['k'], limbs=[v.i('a', i) if i < p['n'] else 0 for i in range(p['k'])])
    yield 'bit length bound', T.lt(inum(v, 'a', p['w'], p['n']), 1 << v.outs[('nbits', 0)]) if v.outs.get(('nbits', 0)) is not None else True


def sp_shift(v):
    p = v.params
    c = v.i('c')
    if not v.honest:
        return
    l = [v.i('a', i) for i in range(p['n'])]
    l[0] = T.add(l[0], c)
    yield 'claimed limb bound', all_(T.le(x, v.o('r.mw')) for x in l)
    yield 'number of limbs', T.eq(v.o('r.n'), p['n'])
    yield 'limb width', T.eq(v.o('r.w'), p['w'])
    for i, x in enumerate(l):
        yield f'limb {i}', T.eq(v.lc('r', i), x)
        yield f'limb value {i}', T.eq(v.o('r.v', i), x)
    yield 'value', T.eq(v.o('r.z'), num(v, 'r', p['w'], p['n']))
    if p.get('amin', 0):
        yield 'claimed minimum size', T.implies(T.lt(0, v.o('r.min')), T.le(1 << (p['amin'] - 1), num(v, 'r', p['w'], p['n'])))


def sp_scale(v):
    p = v.params
    yield from bn(v, 'r', p['w'], p['n'], limbs=[mulc(v.i('a', i), p['c']) for i in range(p['n'])])


def sp_one(v):
    p = v.params
    yield from bn(v, 'r', p['w'], 1, limbs=[1])
    yield 'bit length', T.eq(v.o('nbits'), 1)


def c14(tier):
    q = tier == 'quick'
    for w, na, nb, am, bm in ((64, 2, 2, 0, 0), (64, 1, 3, 0, 0), (16, 2, 2, 20, 0), (16, 2, 2, 0, 20), (16, 2, 1, 20, 16), (8, 3, 2, 24, 16)):
        yield Job(f'concat/{w}x{na},{nb}-{am},{bm}', 'h_concat', sp_concat, mk2(w, na, nb, w, amin=am, bmin=bm), assume=two_ok)
    for w in (16, 64):
        for na in (1, 2, 3):
            for nb in (1, 2, 3):
                for ab, bb in ((w, w), (w, w + 5), (w + 5, w)):
                    yield Job(f'concat/{w}x{na},{nb}-bits{ab},{bb}', 'h_concat', sp_concat, mk2(w, na, nb, ab, bb, amw=ab, bmw=bb))
    for w, n, k, am in ((64, 4, 2, 0), (64, 4, 1, 0), (64, 4, 3, 0), (64, 4, 4, 0), (64, 3, 5, 0), (64, 1, 1, 0), (64, 1, 2, 0), (8, 2, 2, 9), (8, 2, 1, 9), (16, 3, 2, 20), (16, 3, 1, 20), (16, 3, 3, 48), (8, 4, 1, 8), (64, 4, 0, 0)):
        yield Job(f'truncate/{w}x{n}-{k}-{am}', 'h_truncate', sp_truncate, dict(w=w, n=n, k=k, bits=w, amin=am), assume=one_ok)
    for w, n, k, am in ((64, 4, 2, 0), (64, 5, 3, 0), (64, 3, 3, 0), (64, 1, 1, 0), (64, 1, 3, 0), (64, 2, 2, 100), (64, 6, 3, 0), (32, 8, 3, 100), (8, 7, 7, 0), (8, 7, 10, 50), (8, 6, 2, 0), (8, 5, 2, 0), (8, 5, 4, 0), (1, 9, 4, 0), (16, 3, 1, 20)) if q else \
            ((64, 4, 2, 0), (64, 5, 3, 0), (32, 8, 3, 100), (8, 7, 7, 0), (8, 7, 10, 50), (1, 9, 4, 0), (16, 3, 1, 20), (1, 64, 32, 0), (32, 32, 7, 900)):
        yield Job(f'group/{w}x{n}-{k}-{am}', 'h_group', sp_group, dict(w=w, n=n, k=k, bits=w, amin=am), assume=one_ok)
    for w, n, b in ((32, 2, 40), (8, 3, 8), (8, 3, 9), (64, 1, 70), (64, 1, 64), (64, 2, 200), (16, 5, 17), (1, 1, 1), (1, 4, 3)):
        yield Job(f'length/{w}x{n}-{b}', 'h_with_n_limbs', sp_with_n, dict(w=w, n=n, k=n, bits=b, mwbits=b))
    for w, n, k in ((64, 2, 2), (64, 2, 3), (64, 2, 5), (64, 1, 1), (64, 1, 2), (8, 1, 3), (8, 4, 6)):
        yield Job(f'pad/{w}x{n}-{k}', 'h_with_n_limbs', sp_with_n, dict(w=w, n=n, k=k, bits=w))
    yield Job('pad/64x3-2', 'h_with_n_limbs', sp_with_n, dict(w=64, n=3, k=2, bits=64), panics=lambda v: True, may_panic=True)
    for w, n, cb, am in ((64, 2, 64, 0), (64, 3, 253, 0), (64, 1, 0, 0), (64, 1, 64, 0), (8, 3, 8, 0), (8, 1, 8, 3), (16, 2, 40, 20), (128, 2, 253, 0)):
        mx = (1 << 254) - ((1 << w) - 1)
        yield Job(f'shift/{w}x{n}-{cb}', 'h_shift', sp_shift, dict(w=w, n=n, bits=w, cbits=cb, amin=am), assume=one_ok,
                  panics=lambda v, mx=mx: T.lt(mx, v.i('c')))
    for w, n, c, am in ((64, 2, 3, 0), (64, 1, 7, 0), (64, 2, 0, 0), (64, 3, (1 << 64) - 1, 0), (8, 3, 1, 20), (16, 2, 0, 20), (16, 2, 5, 32), (16, 2, 256, 20), (128, 4, 2, 0)):
        yield Job(f'scale/{w}x{n}-{c}', 'h_scale', sp_scale, dict(w=w, n=n, bits=w, c=c, amin=am), assume=one_ok)
    yield Job('scale/200x1-big', 'h_scale', sp_scale, dict(w=200, n=1, bits=200, c=1 << 60), panics=lambda v: True, may_panic=True)
    for w in (1, 2, 8, 64, 128, 254):
        yield Job(f'one/{w}', 'h_one', sp_one, dict(w=w))


# ============================================================================ C15 selection
def sp_mux(v):
    p = v.params
    w, na, nb = p['w'], p['na'], p['nb']
    if p.get('wb', 0) not in (0, w):
        yield 'different widths are refused', v.has('err') and T.eq(v.o('err'), UNSAT)
        return
    if v.has('err'):
        yield 'no error', False
        return
    s = v.i('s')
    yield from honest_ok(v)
    n = max(na, nb)
    z = lambda x, i, k: v.i(x, i) if i < k else 0
    yield from bn(v, 'r', w, n, limbs=[T.ite(T.eq(s, 1), z('b', i, nb), z('a', i, na)) for i in range(n)])


def sp_switch(v):
    p = v.params
    w, na, nb = p['w'], p['na'], p['nb']
    n = max(na, nb)
    if v.has('err'):
        yield 'no error', False
        return
    s = v.i('s')
    z = lambda x, i, k: v.i(x, i) if i < k else 0
    yield from honest_ok(v)
    yield from bn(v, 'r', w, n, limbs=[T.ite(T.eq(s, 1), z('b', i, nb), z('a', i, na)) for i in range(n)])
    yield from bn(v, 'q', w, n, limbs=[T.ite(T.eq(s, 1), z('a', i, na), z('b', i, nb)) for i in range(n)])


def sp_mux_tree(v):
    p = v.params
    k, n, w = p['k'], p['n'], p['w']
    if n != 1 << k:
        yield 'a wrong number of inputs is refused', v.has('err') and T.eq(v.o('err'), UNSAT)
        return
    if v.has('err'):
        yield 'no error', False
        return
    yield from honest_ok(v)
    sel = [v.i(f'i{j}') for j in range(n)]
    for b in reversed(range(k)):          # the first selector bit chooses between the halves
        sel = [T.ite(T.eq(v.i('s', b), 1), sel[2 * j + 1], sel[2 * j]) for j in range(len(sel) // 2)]
    yield from bn(v, 'r', w, 1, limbs=[sel[0]])


def sp_min(v):
    p = v.params
    w, n = p['w'], p['na']
    if v.has('err'):
        yield 'no error', False
        return
    a, b = inum(v, 'a', w, n), inum(v, 'b', w, n)
    yield from honest_ok(v)
    yield from bn(v, 'r', w, n, total=T.ite(T.lt(b, a), b, a))


def sp_gadget(v):
    p = v.params
    w, n = p['w'], p['na']
    if p['na'] != p['nb']:
        if v.honest:
            yield 'different lengths are refused', v.has('err2') and T.eq(v.o('err2'), UNSAT)
        return
    if v.has('err') or v.has('err2'):
        yield 'no error', False
        return
    yield 'wires', count(v, 'n') == n and all_(T.eq(v.lc('n', i), v.i('a', i)) for i in range(n))
    if v.honest:
        yield 'wire values', all_(T.eq(v.o('n.v', i), v.i('a', i)) for i in range(n))
    yield from accept(v, all_(T.eq(v.i('a', i), v.i('b', i)) for i in range(n)), 'equal')


def c15(tier):
    q = tier == 'quick'
    m = 4 if q else 6
    for na in range(1, m + 1):
        for nb in range(1, m + 1):
            yield Job(f'mux/64x{na},{nb}', 'h_mux', sp_mux, mk2(64, na, nb, 64))
    yield Job('mux/8x4,4', 'h_mux', sp_mux, mk2(8, 4, 4, 8))
    yield Job('mux/loose', 'h_mux', sp_mux, mk2(32, 2, 2, 40, mwbits=40))
    for na, nb in ((1, 1), (2, 2), (1, 3), (3, 1)):
        for ab, bb in ((32, 40), (40, 32), (33, 64), (200, 32)):
            yield Job(f'mux/32x{na},{nb}-{ab},{bb}', 'h_mux', sp_mux, mk2(32, na, nb, ab, bb, amw=ab, bmw=bb))
    yield Job('mux/widths', 'h_mux', sp_mux, mk2(32, 2, 2, 32, wb=16))
    for w, n in ((64, 1), (64, 2), (64, 3), (8, 4)):
        yield Job(f'switch/{w}x{n}', 'h_switch', sp_switch, mk2(w, n, n, w))
    for na, nb, ab, bb in ((2, 2, 32, 40), (2, 2, 40, 32), (1, 2, 32, 32), (3, 1, 32, 32), (1, 3, 34, 32)):
        yield Job(f'switch/32x{na},{nb}-{ab},{bb}', 'h_switch', sp_switch, mk2(32, na, nb, ab, bb, amw=ab, bmw=bb))
    for k, n in ((0, 1), (1, 2), (2, 4), (3, 8), (2, 3), (1, 1), (2, 2), (0, 2), (2, 6), (1, 3), (2, 5), (3, 4), (3, 6), (3, 7), (1, 4)):
        yield Job(f'tree/{k}-{n}', 'h_mux_tree', sp_mux_tree, dict(k=k, n=n, w=32))
    for w, n in ((64, 1), (64, 2), (64, 3), (8, 3), (64, 4), (16, 1), (32, 5), (1, 3)) if q else ((64, 2), (8, 3), (64, 4), (16, 1), (32, 8), (64, 8)):
        yield Job(f'min/{w}x{n}', 'h_min', sp_min, mk2(w, n, n, w), weight=n)
    for w, na, nb in ((64, 1, 1), (64, 2, 2), (64, 3, 3), (64, 5, 5), (64, 2, 3), (64, 3, 2), (64, 1, 3), (64, 4, 1)):
        yield Job(f'gadget/{w}x{na},{nb}', 'h_gadget', sp_gadget, mk2(w, na, nb, 0))


# ============================================================================ C16 polynomials
def fsum(xs):
    r = 0
    for x in xs:
        r = T.f_add(r, x)
    return T.f_canon(r)


def fraw(xs):
    r = 0
    for x in xs:
        r = T.f_add(r, x)
    return r


def fpow(x, k):
    r = 1
    for _ in range(k):
        r = T.f_mul(r, x)
    return r


def sp_poly_product(v):
    p = v.params
    na, nb = p['na'], p['nb']
    if v.has('err'):
        yield 'no error', False
        return
    n = na + nb - 1
    yield 'number of coefficients', count(v, 'p') == n
    yield from honest_ok(v)
    for k in range(n):
        c = fsum(T.f_mul(v.i('a', i), v.i('b', k - i)) for i in range(na) if 0 <= k - i < nb)
        yield f'coefficient {k}', T.eq(v.lc('p', k), c)
        if v.honest:
            yield f'coefficient value {k}', T.eq(v.o('p.v', k), c)
    if v.honest:
        x = v.i('x')

        def at(cs):
            r = 0
            for c in reversed(cs):
                r = T.f_add(T.f_mul(r, x), c)
            return T.f_canon(r)
        yield 'evaluation of the first factor', T.eq(v.o('ea'), at([v.i('a', i) for i in range(na)]))
        yield 'evaluation of the second factor', T.eq(v.o('eb'), at([v.i('b', i) for i in range(nb)]))
        raw = lambda cs: fraw(T.f_mul(c, fpow(x, k)) for k, c in enumerate(cs))
        yield 'evaluation of the product', T.f_eq(v.o('ep'), T.f_mul(raw([v.i('a', i) for i in range(na)]), raw([v.i('b', i) for i in range(nb)])))


def sp_poly_sum(v):
    p = v.params
    na, nb = p['na'], p['nb']
    n = max(na, nb)
    yield 'number of coefficients', count(v, 'p') == n
    yield 'no constraint is emitted', len(v.cons) == 0
    for i in range(n):
        c = T.f_canon(T.f_add(v.i('a', i) if i < na else 0, v.i('b', i) if i < nb else 0))
        yield f'coefficient {i}', T.eq(v.lc('p', i), c)
        if v.honest:
            yield f'coefficient value {i}', T.eq(v.o('p.v', i), c)


def c16(tier):
    q = tier == 'quick'
    for na, nb in [(i, j) for i in range(1, 6 if q else 8) for j in range(1, 6 if q else 8)] + ([(1, 7), (7, 1), (2, 7)] if q else [(2, 12), (12, 2), (9, 8), (8, 9), (1, 16)]):
        yield Job(f'product/{na},{nb}', 'h_poly_product', sp_poly_product, mk2(64, na, nb, 0), weight=na * nb)
    for na, nb in [(i, j) for i in range(1, 6) for j in range(1, 6)]:
        yield Job(f'sum/{na},{nb}', 'h_poly_sum', sp_poly_sum, mk2(64, na, nb, 0))


# ============================================================================ C17 bit vectors
def bits_are(v, name, vname, want, label='', alloc=None):
    n = len(want)
    yield f'{label}length', count(v, name) == n and (not v.honest or sum(1 for k in v.outs if k[0] == vname) == n)
    if count(v, name) != n:
        return
    yield f'{label}wires', all_(T.eq(v.lc(name, i), want[i]) for i in range(n))
    if v.honest:
        yield f'{label}values', all_(T.eq(v.o(vname, i), want[i]) for i in range(n))


def sp_bits(v):
    p = v.params
    n, k, op = p['n'], p['k'], p['op']
    x = [v.i('x', i) for i in range(n)]
    y = v.i('y')
    if op == 0:
        yield from bits_are(v, 'b', 'b.v', x[::-1])
    elif op == 1:
        yield from bits_are(v, 'b', 'b.v', x[:k])
    elif op == 2:
        yield from bits_are(v, 'b', 'b.v', x[k:])
    elif op == 3:
        yield from bits_are(v, 'b', 'b.v', [0] * k + x)
    elif op == 4:
        if n == 0:
            yield 'nothing to pop', v.has('none') or not v.honest
        else:
            yield 'popped wire', T.eq(v.lc('p'), x[-1])
            if v.honest:
                yield 'popped value', T.eq(v.o('p.v'), x[-1])
        yield from bits_are(v, 'b', 'b.v', x[:-1])
    elif op == 5:
        yield from bits_are(v, 'b', 'b.v', x + [y])
    elif op == 6:
        yield from bits_are(v, 'b', 'b.v', x[:k] + [y] + x[k:])
    elif op == 7:
        yield from bits_are(v, 'b', 'b.v', x + [v.i('z', i) for i in range(k)])
    elif op == 8:
        yield from bits_are(v, 'b', 'b.v', x)
    elif op == 9:
        if k >= n:
            yield 'none out of range', (v.has('none') or not v.honest) and count(v, 'b') == 0
        else:
            yield from bits_are(v, 'b', 'b.v', [x[k]])
    elif op == 10:
        yield from bits_are(v, 'b', 'b.v', [T.sub(1, y)])
    elif op == 11:
        yield from accept(v, T.eq(y, k), 'constrained')
    elif op == 12:
        yield from bits_are(v, 'b', 'b.v', [k])
    elif op == 13:
        yield from bits_are(v, 'b', 'b.v', [v.lc('src')])
        if v.honest:
            yield 'source', T.eq(v.lc('src'), T.sub(1, y) if k else y)
    else:
        for i in range(k):
            o, a = T.eq(v.inputs.get(('op', i), 0), 1), T.eq(v.inputs.get(('arg', i), 0), 1)
            f = [0] + x[:-1]
            g = x[1:] + [y]
            h = x[::-1]
            r = x[-1:] + x[:-1]
            x = [T.ite(o, T.ite(a, f[j], g[j]), T.ite(a, h[j], r[j])) for j in range(n)]
        yield from bits_are(v, 'b', 'b.v', x)


def c17(tier):
    q = tier == 'quick'
    for n in (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6, 8):
        for op in (0, 4, 5, 8):
            yield Job(f'op{op}/{n}', 'h_bits', sp_bits, dict(n=n, k=0, op=op))
        for op in (1, 2, 3, 6, 7, 9):
            for k in range(n + (2 if op in (1, 3, 7, 9) else 1)):
                yield Job(f'op{op}/{n}-{k}', 'h_bits', sp_bits, dict(n=n, k=k, op=op))
    yield Job('op4/0', 'h_bits', sp_bits, dict(n=0, k=0, op=4))
    for op in (10, 11, 12, 13):
        for k in (0, 1):
            yield Job(f'op{op}-{k}', 'h_bits', sp_bits, dict(n=1, k=k, op=op))
    for n, k in ((3, 2), (4, 3)) if q else ((3, 2), (4, 3), (5, 4), (3, 5)):
        yield Job(f'history/{n}-{k}', 'h_bits', sp_bits, dict(n=n, k=k, op=14), limit=4 ** k + 8, weight=4)


# ============================================================================ C18 lazy values
def sp_lazy(v):
    k = v.params['k']
    yield 'not computed before the first read', T.eq(v.o('before'), 0)
    for i in range(k):
        yield f'read {i}: computed once', T.eq(v.o('n', i), 1)
        yield f'read {i}: the computed value', T.eq(v.o('v', i), T.wrap(T.add(v.i('x'), 1), 64))


def c18(tier):
    for k in (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8):
        yield Job(f'reads/{k}', 'h_lazy', sp_lazy, dict(k=k), limit=2 ** k + 4, weight=k)


# ============================================================================ C19 conversions
def sp_f_to_nat(v):
    yield 'value', T.eq(v.o('z'), v.i('f'))


def sp_nat_to_f(v):
    p = v.params
    z = v.i('z')
    if p['neg']:
        yield 'negative integers are refused', T.implies(T.lt(0, z), T.eq(v.o('some'), 0))
        yield 'zero is accepted', T.implies(T.eq(z, 0), T.eq(v.o('some'), 1))
        return
    yield 'accepted', T.eq(v.o('some'), 1)
    if v.has('f'):
        yield 'congruent', T.eq(v.o('f'), T.fmod(z, FP))
        yield 'field elements come back unchanged', T.implies(T.lt(z, FP), T.eq(v.o('f'), z))


def sp_usize_to_f(v):
    yield 'value', T.eq(v.o('f'), v.i('n'))


def sp_f_to_usize(v):
    yield 'value', T.eq(v.o('n'), v.i('f'))


def c19(tier):
    yield Job('f_to_nat', 'h_f_to_nat', sp_f_to_nat, dict())
    for zb in (8, 63, 64, 65, 128, 253, 254, 255, 256, 300, 512, 520) if tier == 'quick' else (8, 16, 32, 63, 64, 65, 128, 192, 253, 254, 255, 256, 257, 300, 509, 510, 511, 512, 520, 764, 1024, 2048):
        yield Job(f'nat_to_f/{zb}', 'h_nat_to_f', sp_nat_to_f, dict(zbits=zb, neg=0))
    for zb in (1, 64, 254, 255, 300):
        yield Job(f'nat_to_f/-{zb}', 'h_nat_to_f', sp_nat_to_f, dict(zbits=zb, neg=1))
    yield Job('usize_to_f', 'h_usize_to_f', sp_usize_to_f, dict())
    for b in (1, 8, 9, 16, 32, 63, 64):
        yield Job(f'f_to_usize/{b}', 'h_f_to_usize', sp_f_to_usize, dict(bits=b))
    yield Job('f_to_usize/any', 'h_f_to_usize', sp_f_to_usize, dict(bits=0), panics=lambda v: T.le(1 << 64, v.i('f')))


# ============================================================================ C22 minimum size
def sp_full_bits(v):
    p = v.params
    w, n = p['w'], p['n']
    if v.has('err'):
        yield 'no error', False
        return
    top = v.i('a', n - 1)
    yield from accept(v, T.band(T.le(1 << (w - 1), top), T.lt(top, 1 << w)), 'full length')
    yield 'declared minimum', v.outs.get(('r.min', 0)) == w * n
    yield 'the number is kept', all_(T.eq(v.lc('r', i), v.i('a', i)) for i in range(n))


def sp_min_bits(v):
    p = v.params
    w, n, k = p['w'], p['n'], p['k']
    fits = all_(T.lt(v.i('a', i), 1 << w) for i in range(n))
    want = T.band(fits, T.le(1 << (k - 1), inum(v, 'a', w, n)))
    if v.has('err'):
        yield 'refused only when too short', T.bnot(want)
        return
    yield from accept(v, want, 'long enough')
    yield 'declared minimum', v.outs.get(('r.min', 0)) == k
    yield 'the number is kept', all_(T.eq(v.lc('r', i), v.i('a', i)) for i in range(n))


def c22(tier):
    q = tier == 'quick'
    for w, n, b in ((8, 1, 0), (8, 2, 0), (32, 3, 32), (64, 1, 0), (64, 2, 0), (64, 4, 64), (1, 3, 1), (2, 2, 0), (253, 1, 0)):
        yield Job(f'full/{w}x{n}', 'h_full_bits', sp_full_bits, dict(w=w, n=n, bits=b))
    for w, n, k, b in [(8, 2, k, 0) for k in range(1, 17)] + [(8, 3, 17, 8), (8, 1, 5, 0), (8, 1, 8, 8), (16, 3, 20, 16), (32, 2, 50, 0), (64, 2, 64, 64), (64, 2, 65, 64), (1, 4, 2, 1)] if q else \
            [(8, 3, k, 0) for k in range(1, 25)] + [(8, 2, 1, 0), (8, 2, 9, 8), (8, 2, 16, 0), (16, 3, 20, 16), (32, 2, 50, 0), (64, 4, 200, 64), (64, 4, 256, 64), (32, 8, 1, 32)]:
        yield Job(f'min/{w}x{n}-{k}', 'h_min_bits', sp_min_bits, dict(w=w, n=n, k=k, bits=b),
                  panics=lambda v, w=w, n=n, k=k: T.bnot(T.band(
                      all_(T.lt(v.i('a', i), 1 << w) for i in range(n)), T.le(1 << (k - 1), inum(v, 'a', w, n)))))


# ============================================================================ C23 public inputs
def sp_inputize(v):
    p = v.params
    n = p['n']
    if v.has('err'):
        yield 'no error', False
        return
    ins = sorted(x for x in v.vals if x and x % 2 == 0)      # public inputs have even numbers
    yield 'one public input per limb', len(ins) == n
    if len(ins) != n:
        return
    yield 'public inputs are the limbs in order', all_(T.eq(T.f_canon(v.val(x)), v.i('a', i)) for i, x in enumerate(ins))
    yield from honest_ok(v)


def c23(tier):
    for g in (0, 1):
        for w, n in ((64, 1), (64, 2), (64, 3), (64, 4), (64, 5), (64, 8), (8, 3), (1, 2)) if tier == 'quick' else ((64, 1), (64, 2), (64, 3), (64, 4), (8, 3), (32, 8), (64, 16), (64, 32), (64, 33)):
            yield Job(f'inputize/{g}-{w}x{n}', 'h_inputize', sp_inputize, dict(w=w, n=n, bits=0, base=0, gadget=g))


# ============================================================================ C24 widths
def sp_widths(v):
    if v.honest:
        yield 'refused', v.has('err')
        yield 'no result', not v.has('r.mw') and not v.has('q.mw') and not v.has('ok')


def c24(tier):
    prs = ((64, 32), (32, 64), (8, 9)) if tier == 'quick' else ((64, 32), (32, 64), (8, 9), (64, 63), (1, 64), (128, 64))
    for h in ('ewc', 'ewcr', 'equal', 'is_equal', 'mult', 'divides', 'mult_mod', 'assert_product_mod', 'add', 'sub', 'concat', 'mux', 'min'):
        for wa, wb in prs:
            b = min(wa, wb)
            for na, nb in ((2, 2), (1, 1), (1, 2), (2, 1), (3, 2)):
                yield Job(f'{h}/{wa}x{na},{wb}x{nb}', 'h_' + h, sp_widths, mk2(wa, na, nb, b, wb=wb, nm=na, mbits=b))

# ============================================================================ C21 the circuit
def c21(tier):
    """the gadgets' jobs of the other properties, a few layouts of each"""
    q = tier == 'quick'
    seen = {}
    names = set()
    for c in (c01, c02, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c22, c23):
        js = [j for j in c(tier) if not j.may_panic]
        for j in js:
            h = j.harness
            if h in ('h_nat_to_limbs', 'h_limbs_to_nat') or j.name.startswith(('alloc_limbs/', 'mux/widths', 'is_equal/lengths', 'is_equal/widths')) \
                    or h == 'h_mux_tree' and j.params['n'] != 1 << j.params['k'] or h == 'h_gadget' and j.params['na'] != j.params['nb']:
                continue
            k = (h, j.params.get('op'))
            if seen.get(k, 0) >= (3 if q else 8):
                continue
            seen[k] = seen.get(k, 0) + 1
            consts = {'h_shift': ('c',)}.get(h, ())
            nm = f'{h[2:]}/' + '-'.join(str(x) for x in j.params.values())
            if nm in names:
                continue
            names.add(nm)
            yield Job(nm, h, None, j.params, assume=j.assume, panics=j.panics, gen=j.gen, limit=j.limit, weight=j.weight, shape=dict(consts=consts))

    yield Job('header_step/any', 'h_header_step', None, dict(e=0, anyexp=1, hbits=224, tbits=224), gen=header_gen(9, 0), weight=30, shape=dict(consts=()))


ASSUMPTIONS = [
    'the executor runs the IR of /repo\'s real source (rustc -C opt-level, stable) in which three dependencies are replaced by small stand-ins: the scalar field '
    '(an opaque symbolic element of the BLS12-381 scalar field with its field operations), num-bigint (an opaque symbolic integer) and the constraint-system recorder; '
    'every job compares executor and native build (real field, real num-bigint) on sampled inputs, output by output, variable by variable, constraint by constraint, before deciding anything',
    'z3 and cvc5 are trusted for unsat answers; sat answers are believed only after a native replay',
    'field: the BLS12-381 scalar field that the repository tests with; other fields are not covered',
]
PROPS = {
    'C01': dict(jobs=c01), 'C02': dict(jobs=c02), 'C03': dict(jobs=c03), 'C04': dict(jobs=c04), 'C05': dict(jobs=c05),
    'C06': dict(jobs=c06), 'C07': dict(jobs=c07), 'C08': dict(jobs=c08), 'C09': dict(jobs=c09), 'C10': dict(jobs=c10), 'C11': dict(jobs=c11),
    'C12': dict(jobs=c12), 'C13': dict(jobs=c13), 'C14': dict(jobs=c14), 'C15': dict(jobs=c15), 'C16': dict(jobs=c16), 'C17': dict(jobs=c17), 'C18': dict(jobs=c18),
    'C19': dict(jobs=c19), 'C20': dict(jobs=c20), 'C21': dict(jobs=c21), 'C22': dict(jobs=c22), 'C23': dict(jobs=c23), 'C24': dict(jobs=c24),
}
