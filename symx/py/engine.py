"""Runs one job: symbolic execution of a harness, validation of the executor against the native
build, proof obligations by SMT, native replay of every counterexample."""
import os
import random
import time
import traceback
import terms as T
from terms import Poly, B, FP
import machine
import smt
import r1cs

T_QUERY = 25
REPO_SRC = os.environ.get('SYMX_REPO', '/repo') + '/src/'


class Job:
    def __init__(s, name, harness, spec, params=None, forged=True, honest=True, panics=None, assume=None,
                 limit=64, samples=None, setup=False, timeout=None, novalidate=False, note=None, gen=None, gen_bad=None,
                 budget=200_000_000, fixed=None, weight=1, shape=False, may_panic=False, ties=(), finds=None, tie_sha=False, zeros=False, lemmas=False, context=False):
        s.name = name            # unique within the property
        s.harness = harness
        s.params = params or {}
        s.spec = spec            # generator of (label, boolean term) given a View
        s.forged = forged        # also decide the obligations over forged assignments
        s.honest = honest
        s.panics = panics        # view -> boolean term under which a panic is specified (default: never)
        s.assume = assume        # view -> precondition
        s.limit = limit
        s.samples = samples
        s.timeout = timeout
        s.novalidate = novalidate
        s.note = note
        s.gen = gen              # random -> {(name,i): int} for the validation runs
        s.budget = budget
        s.fixed = fixed
        s.weight = weight
        s.shape = shape
        s.ties = ties            # inputs whose first wire (by its honest value) is a public input of the circuit
        s.gen_bad = gen_bad      # inputs that break a rule
        s.tie_sha = tie_sha; s.zeros = zeros      # the bits that go into and come out of SHA-256 are inputs of the circuit
        s.context = context      # simplify with what the hypotheses say about ranges first
        s.lemmas = lemmas        # what holds may be used for what comes after it
        s.finds = finds          # view -> {(name, i): term}: wires to be named by their honest value
        s.may_panic = may_panic  # every input may be refused by a panic


def equal_variables(fs):
    """x - y == 0 among the formulas, for variables x and y: {x: y}"""
    rep = {}

    def find(p):
        a = T.ATOMS[next(iter(p.m))[0]].args[0]
        return p if a not in rep else find(rep[a])

    for f in fs:
        if f.__class__ is B and f.kind == 'eq' and f.args[0].__class__ is Poly and len(f.args[0].m) == 2:
            (k1, c1), (k2, c2) = f.args[0].m.items()
            if len(k1) == len(k2) == 1 and {c1, c2} == {1, -1} and all(T.ATOMS[k[0]].kind == 'var' for k in (k1, k2)):
                x, y = sorted((find(T.ATOMS[k[0]].poly) for k in (k1, k2)), key=lambda p: p.hi - p.lo)
                if x is not y:      # x has the tighter range
                    rep[T.ATOMS[next(iter(y.m))[0]].args[0]] = x
    return {k: find(p) for k, p in rep.items()}


class View:
    """what a spec sees: terms (symbolic) or ints (native)"""

    def __init__(s, inputs, outs, lcs, vals, cons, sha=None, forged=False, params=None, native=False):
        s.inputs = inputs; s.outs = outs; s.lcs = lcs; s.vals = vals; s.cons = cons
        s.forged = forged
        s.honest = not forged
        s.params = params
        s.sha = sha
        s.native = native
        s._sat = None

    def i(s, n, i=0):
        return s.inputs[(n, i)]

    def o(s, n, i=0):
        return s.outs[(n, i)]

    def has(s, n, i=0):
        return (n, i) in s.outs

    def hlc(s, n, i=0):
        return (n, i) in s.lcs

    def val(s, v):
        if v == 0:
            return 1
        x = s.vals[v]
        if x is None:
            raise T.Unsupported('no value')
        return x

    def lc(s, n, i=0):
        """canonical value of an output linear combination"""
        r = 0
        for v, c in s.lcs[(n, i)]:
            x = s.val(v)
            r = T.f_add(r, T.f_mul(c, x))
        return T.f_canon(r)

    def shabit(s, call, i):
        """bit i of what the call of SHA-256 is given"""
        kind, v, val = s.sha[call][0][i]
        if kind == 0 or s.honest:
            return val
        x = s.val(v)
        return x if kind == 1 else T.sub(1, x)

    def n(s, name):
        """number of outputs/lcs called name"""
        k = 0
        while (name, k) in s.lcs or (name, k) in s.outs:
            k += 1
        return k

    @property
    def sat(s):
        """all constraints hold"""
        if s._sat is None:
            r = []
            for A, B_, C in s.cons:
                a, b, c = (s._lin(x) for x in (A, B_, C))
                if a.__class__ is not Poly and a == 0 or b.__class__ is not Poly and b == 0:
                    r.append(T.f_eq(c, 0))
                elif c.__class__ is not Poly and c % FP == 0:
                    r.append(T.bor(T.f_eq(a, 0), T.f_eq(b, 0)))
                else:
                    r.append(T.f_eq(T.f_sub(T.f_mul(a, b), c), 0))
            s._sat = T.band(*r)
        return s._sat

    def _lin(s, d):
        r = 0
        for v, c in d:
            r = T.f_add(r, T.f_mul(c, s.val(v)))
        return r


def env_inputs(o, model, fixed):
    """native input dictionary from a model (variable name -> int)"""
    out = {}
    for key, t in o.inputs.items():
        if key in (fixed or {}):
            out[key] = fixed[key]
        elif t.__class__ is Poly:
            out[key] = T.evaluate([t], _Dflt(model))[0]
        else:
            out[key] = t
    return out


class _Dflt(dict):
    def __missing__(s, k):
        a = None
        for x in T.ATOMS:
            if x.kind == 'var' and x.args[0] == k:
                a = x
                break
        return max(a.lo, 0) if a is not None else 0


class Runner:
    def __init__(s, job, mach, nat, tier, seed):
        s.job = job; s.m = mach; s.nat = nat; s.tier = tier
        s.rnd = random.Random(seed)
        s.timeout = job.timeout or (T_QUERY if tier == 'quick' else 120)
        s.res = dict(job=job.name, harness=job.harness, params={k: v for k, v in job.params.items()},
                     obligations=[], violations=[], undecided=[], mismatches=[], notes=[], paths=0, panics=0,
                     constraints=0, validated=0, reach=0, functions={}, seconds=0.0, forks=0, may_panic=job.may_panic)
        s.ob_count = 0
        s.vruns = []          # native runs of the validation: (input variables, run)

    # -------------------------------------------------------------
    def run(s):
        t0 = time.time()
        T.reset()
        s.m.tokens.clear()
        smt.STATS.__init__()
        try:
            s._run()
        except T.Unsupported as e:
            s.res['undecided'].append(dict(label='encoding', why=f'unsupported: {e}', trace=traceback.format_exc(limit=-6)))
        except Exception:
            s.res['undecided'].append(dict(label='internal', why=traceback.format_exc(limit=-8)[-600:]))
        s.res['seconds'] = time.time() - t0
        st = smt.STATS
        s.res['solver'] = dict(queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown,
                               seconds=st.seconds, by=st.by, trivial=st.trivial)
        s.nat.close()
        return s.res

    def feasible(s, conds):
        v, _, _ = smt.query(conds, timeout=3)
        return v != 'unsat'

    def _run(s):
        j = s.job
        fixed = j.fixed
        try:
            outs = s.m.execute(j.harness, j.params, limit=j.limit, budget=j.budget, fixed=fixed, feasible=s.feasible)
        except T.Unsupported as e:
            # once more without merging the states of branches
            s.res['notes'].append(f'without state merging ({e})')
            outs = s.m.execute(j.harness, j.params, limit=max(j.limit, 256), budget=j.budget, fixed=fixed, feasible=s.feasible, nomerge=True)
        s.outs = outs
        s.res['paths'] = len(outs)
        s.res['forks'] = s.m.fork_count
        s.res['panics'] = sum(len(o.panics) for o in outs)
        s.res['constraints'] = max((len(o.cons) for o in outs), default=0)
        s.res['aux'] = max((o.naux for o in outs), default=0)
        s.res['functions'] = coverage(s.m)
        t = time.time()
        if not j.novalidate:
            s.validate()
        s.res['t_validate'] = time.time() - t
        if s.res['mismatches']:
            return
        live = [o for o in outs if not o.died]
        if j.shape:
            s.shape_obligations(live)
            return
        s.panic_obligations(outs)
        if not live:
            s.res['notes'].append('every path panics')
        reach = False
        shapes = {}
        for k, o in enumerate(live):
            pre = o.pre + o.path
            if len(o.panics) <= 24:      # there is an outcome only where nothing panicked
                pre = pre + [x for x in (T.bnot(T.band(*p.path)) for p in o.panics) if x.__class__ is B or not x]
            v = View(o.inputs, o.outs, o.lcs, o.vals, o.cons, sha=o.sha, params=j.params)
            if j.assume is not None:
                pre = pre + [j.assume(v)]
            # reachability of this path under the precondition
            r, model, _ = smt.query(pre, timeout=s.timeout)
            if r == 'unsat' and not j.may_panic:
                continue
            reach = True
            if r == 'sat':
                s.res['reach'] += 1
            if j.honest and r != 'unsat':
                for lab, t in j.spec(v):
                    s.decide(o, k, lab, t, pre, v, model)
            if j.forged and o.cons and ('err', 0) not in o.outs:
                sg = (shape_sig(o), tuple(c.id for c in o.choices))
                if sg not in shapes:
                    shapes[sg] = o
                    s.refmodel = model
                    s.forged(o, k, list(o.pre) + o.choices)
        if live and not reach:
            s.res['notes'].append('no path reachable under the precondition')

    # ------------------------------------------------------------- obligations
    def record(s, label, verdict, how, **kw):
        s.res['obligations'].append(dict(label=label, verdict=verdict, how=how, **kw))

    def panic_obligations(s, outs):
        seen = {}
        for o in outs:
            for p in o.panics:
                seen.setdefault((p.loc, p.msg), []).append((o, p))
        for (loc, msg), lst in seen.items():
            key = f'no-panic: {msg[:80]} at {short(loc)}'
            bad = None
            unk = False
            done = set()
            for o, p in lst:
                v = View(o.inputs, {}, {}, {}, [], params=s.job.params)
                c = list(p.path)
                if s.job.assume is not None:
                    try:
                        c.append(s.job.assume(v))
                    except KeyError:
                        pass
                if s.job.panics is not None:
                    a = s.job.panics(v)
                    if a.__class__ is not B and a:
                        continue
                    c.append(T.bnot(a))
                ids = frozenset(x.id if x.__class__ is B else bool(x) for x in c)
                if ids in done:         # the same prefix of another path
                    continue
                done.add(ids)
                r = 'unknown'
                for limit, nl in ((s.timeout // 8, False), (s.timeout // 2, True)) if s.job.context else ():
                    r, m, exact = smt.query(c, timeout=limit, nl=nl)
                    if r != 'unknown':
                        break
                if r == 'unknown':
                    r, m, exact = smt.query(c, timeout=s.timeout)
                if r == 'sat':
                    if s.replay_panic(o, c, m, key, loc):
                        bad = True
                        break
                    # spurious or not reproduced: try again with exact products
                    r, m, exact = smt.query(c, timeout=s.timeout, nl=True)
                    if r == 'sat':
                        if s.replay_panic(o, c, m, key, loc):
                            bad = True
                            break
                        unk = True
                    elif r == 'unknown':
                        unk = True
                elif r == 'unknown':
                    r, m, exact = smt.query(c, timeout=2 * s.timeout, nl=True)
                    if r == 'sat' and s.replay_panic(o, c, m, key, loc):
                        bad = True
                        break
                    unk = unk or r != 'unsat'
            if bad:
                self_v = 'violated'
            elif unk:
                s.res['undecided'].append(dict(label=key, why='solver gave no answer'))
                self_v = 'undecided'
            else:
                self_v = 'holds'
            s.record(key, self_v, 'smt')

    def replay_panic(s, o, conds, model, key, loc):
        try:
            if not all(T.evaluate(conds, _Dflt(model))):
                return False
        except T.Unsupported:
            pass
        inp = env_inputs(o, model, s.job.fixed)
        r = s.nat.run(s.job.harness, s.job.params, inp)
        if r.panic is None:
            return False
        s.violation(key, inp, f'native run panics: {r.panic}')
        return True

    def violation(s, label, inp, what, **kw):
        s.res['violations'].append(dict(label=label, job=s.job.name, harness=s.job.harness, params=s.job.params,
                                        inputs=[[n, i, str(v)] for (n, i), v in sorted(inp.items())],
                                        what=what, **kw))

    def native_label(s, inp, label):
        """truth of obligation `label` on the native run of these inputs: True/False/None"""
        r = s.nat.run(s.job.harness, s.job.params, inp)
        if r.assume_failed:
            return None, r
        if r.panic is not None:
            return 'panic', r
        v = View(inp, r.outs, r.lcs, r.vals, r.cons, params=s.job.params, native=True, sha=native_sha(r))
        if s.job.assume is not None and not s.job.assume(v):
            return None, r
        for lab, t in s.job.spec(v):
            if lab == label:
                return bool(t), r
        return 'absent', r

    def panic_allowed(s, o, inp):
        if s.job.may_panic:
            return True
        v = View(inp, {}, {}, {}, [], params=s.job.params, native=True)
        try:
            if s.job.assume is not None and not s.job.assume(v):
                return True
            return s.job.panics is not None and bool(s.job.panics(v))
        except KeyError:
            return False

    def attempts(s, pre, neg, atoms_in):
        """models of pre and neg: first with products opaque, then exact, then with inputs fixed"""
        base = pre + [neg]
        r, m, exact = smt.query(base, timeout=s.timeout)
        yield r, m, exact
        if r == 'unsat' or exact and r != 'unknown':
            return
        # try to fix inputs that occur in products
        r2, m2, _ = smt.query(base, timeout=s.timeout, nl=True)
        yield r2, m2, True
        if r2 == 'unsat':
            return
        names = {a.args[0]: a for a in smt.variables(base) if not a.args[0].startswith(('w', 'u', '$')) or '.' in a.args[0]}
        for k in range(12):
            fx = {}
            for nm, a in names.items():
                lo, hi = a.lo, a.hi
                q = s.rnd.random()
                if k == 0 and m:
                    fx[nm] = m.get(nm, lo)
                elif q < .25:
                    fx[nm] = hi
                elif q < .4:
                    fx[nm] = lo
                elif q < .6:
                    fx[nm] = min(hi, max(lo, s.rnd.randrange(4)))
                else:
                    fx[nm] = s.rnd.randint(lo, hi)
                if k >= 4 and s.rnd.random() < .4:
                    del fx[nm]
            c = [smt.deep_subst(x, fx) for x in base]
            r3, m3, ex3 = smt.query(c, timeout=min(s.timeout, 8))
            if r3 == 'sat':
                m3 = dict(m3 or {})
                m3.update(fx)
                yield 'sat', m3, True

    def by_context(s, pre, neg, check):
        """does neg contradict pre, once both are simplified with what they say about ranges?"""
        parts = conjuncts(neg)
        v = s.by_context_of(pre, *(parts or ([neg], None)), check)
        return s.by_context_of(pre, [neg], None, check) if v == 'undecided' and parts else v

    def by_context_of(s, pre, rest, cs, check):
        facts, goals, back = smt.context(pre + rest, cs or [])
        if any(f.__class__ is not B and not f for f in facts):
            return 'holds'
        facts = [f for f in facts if f.__class__ is B]
        todo = [g for g in (goals if cs is not None else [False]) if g.__class__ is B or not g]
        lemmas = []
        for limits in ((6, 8), (20, 30)):
            bad = []
            for g in todo:
                for known, t, nl in ((None, limits[0], False), (facts + lemmas, limits[0], False), (facts + lemmas, limits[1], True)):
                    if known is None and g.__class__ is not B:
                        continue
                    r, m, exact = smt.query((known or []) + [T.bnot(g)], timeout=t, nl=nl)
                    if r == 'unsat':
                        break
                    if r == 'sat' and known is not None:
                        m = dict(m)
                        for n, x in reversed(back):
                            m[n] = T.evaluate([x], _Dflt(m))[0] if x.__class__ is Poly else x
                        if check(m):
                            return 'violated'
                if r != 'unsat':
                    bad.append(g)
                    if os.environ.get('SYMX_DEBUG'):
                        print('context: undecided', limits, len(todo), r, exact, T.showb(g, 6)[:1500] if g.__class__ is B else g, flush=True)
                    if len(bad) > 5:
                        break
                else:
                    lemmas.append(g)
            # what has been shown helps with the rest
            if not bad or len(bad) > 5 or not lemmas:
                break
            todo = bad
        return 'undecided' if bad else 'holds'

    def near_unsat(s, pre, neg, limits=(4, 4, 8, 12)):
        """does neg contradict those of the formulas that are close to it?"""
        if parts_of := conjuncts(neg):      # t is a conjunction: each part of its own
            rest, cs = parts_of
            return all(s.near_unsat(pre + rest, T.bnot(c), limits) for c in cs)
        same = equal_variables(pre)
        if same:
            memo = {}
            pre = [smt.deep_subst(f, same, memo) for f in pre]
            neg = smt.deep_subst(neg, same, memo)
        names = {a.args[0] for a in smt.variables([neg])}
        left = [(f, frozenset(a.args[0] for a in smt.variables([f]))) for f in pre if f.__class__ is B]
        used = []
        for t in limits:
            new = [(f, n) for f, n in left if n & names]
            if not new:
                break
            left = [(f, n) for f, n in left if not n & names]
            for f, n in new:
                used.append(f)
                names |= n
            for nl in (False, True):
                r, m, exact = smt.query(used + [neg], timeout=t, nl=nl)
                if r == 'unsat':
                    return True
                if exact:
                    break
        return False

    def solve(s, pre, t, check, near=True):
        """is t valid under pre?  -> 'holds' | 'violated' (check(model) confirmed it) | 'undecided'"""
        neg = T.bnot(t)
        parts = conjuncts(neg)
        t_full = s.timeout
        if near and len(pre) > 200 and s.near_unsat(pre, neg):
            return 'holds'
        if s.job.context and len(pre) <= 200:
            v = s.by_context(pre, neg, check)
            if v != 'undecided':
                return v
        if parts is None:
            for r, m, exact in s.attempts(pre, neg, None):
                if r == 'unsat':
                    return 'holds'
                if r == 'sat' and check(dict(m)):
                    return 'violated'
            return 'undecided'
        # a conjunction: all at once, then one by one with the proved ones as lemmas
        r, m, exact = smt.query(pre + [neg], timeout=min(t_full, 4))
        if r == 'unsat':
            return 'holds'
        if r == 'sat' and check(dict(m)):
            return 'violated'
        rest, cs = parts
        lemmas = []
        bad = 0
        for c in cs:
            v = None
            for k, known in enumerate(([], pre + rest, pre + rest + lemmas)):
                if k == 2 and not lemmas:
                    break
                r, m, exact = smt.query(known + [T.bnot(c)], timeout=min(t_full, (3, 5, 25)[k]))
                if r == 'unsat':
                    v = 'holds'
                    break
                if k and r == 'sat' and check(dict(m)):
                    return 'violated'
            if v is None:
                for r, m, exact in s.attempts(pre + rest + lemmas, T.bnot(c), None):
                    if r == 'unsat':
                        v = 'holds'
                        break
                    if r == 'sat' and check(dict(m)):
                        return 'violated'
            if v is None:
                if os.environ.get('SYMX_DEBUG'):
                    print('undecided conjunct', cs.index(c), 'of', len(cs), T.showb(c, 6)[:1500], flush=True)
                    if os.environ['SYMX_DEBUG'] == '2':
                        open('/tmp/dbg.pat', 'w').write(T.dump([c]))
                bad += 1
                if bad > 2:
                    break
            else:
                lemmas.append(c)
        return 'undecided' if bad else 'holds'

    def decide(s, o, k, label, t, pre, view, model0):
        """obligation t under pre"""
        lab = label
        if t.__class__ is not B and t:
            s.record(lab, 'holds', 'normal form')
            smt.STATS.trivial += 1
            return

        def check(m):
            inp = env_inputs(o, m, s.job.fixed)
            nv, run = s.native_label(inp, label)
            if nv == 'panic' and s.panic_allowed(o, inp):
                nv = None
            if nv == 'absent':
                # another path of the program; a defect of the executor if it predicts this one
                nv = None
                try:
                    if all(T.evaluate(pre, _Dflt(m))):
                        s.res['mismatches'].append(dict(inputs=[[n, i, str(x)] for (n, i), x in inp.items()], what=f'the native run does not reach {label!r}'))
                except T.Unsupported:
                    pass
            if nv is False or nv == 'panic':
                s.violation(lab, inp, {False: 'the obligation is false on the native run',
                                       'panic': f'native run panics: {run.panic}'}[nv],
                            outs=[[n, i, str(x)] for (n, i), x in list(run.outs.items())[:40]])
                return True
            return False
        verdict = s.solve(pre, t, check)
        if verdict == 'undecided':
            s.res['undecided'].append(dict(label=lab, why='no unsat answer and no model that replays natively'))
        s.record(lab, verdict, 'smt')

    # ------------------------------------------------------------- the circuit and the witness
    def shape_obligations(s, live):
        """every path that yields a result emits the same circuit, with constant coefficients, and so does
        the run without a witness"""
        j = s.job
        groups = {}
        for o in live:
            if ('err', 0) in o.outs:
                continue
            v = View(o.inputs, o.outs, o.lcs, o.vals, o.cons, params=j.params)
            pre = o.pre + o.path + ([j.assume(v)] if j.assume is not None else [])
            r, model, _ = smt.query(pre, timeout=s.timeout)
            if r == 'unsat':
                continue
            if r != 'sat':
                s.res['undecided'].append(dict(label='same circuit', why='solver gave no answer on a path'))
            s.res['reach'] += 1
            groups.setdefault(tuple(c.id for c in o.choices), []).append((o, model, pre))
        for g in groups.values():
            label = 'the same circuit for every witness'
            first, m0, _ = g[0]
            verdict = 'holds'
            for o, m, _ in g[1:]:
                if shape_sig(o) != shape_sig(first):
                    verdict = s.shape_differs(label, first, m0, o, m)
                    break
            s.record(label, verdict, 'smt')
            label = 'constant coefficients'
            verdict = 'holds'
            for o, m, pre in g:
                bad = [c for abc in o.cons for l in abc for _, c in l if c.__class__ is Poly and not s.constant(c)] + \
                    [c for l in o.lcs.values() for _, c in l if c.__class__ is Poly and not s.constant(c)]
                if bad:
                    verdict = s.coefficient_varies(label, o, bad[0], pre, m)
                    break
            s.record(label, verdict, 'normal form' if verdict == 'holds' else 'smt')
        if not groups:
            s.res['notes'].append('no path yields a circuit')
        if not j.shape.get('novalues', True):
            return
        label = 'the same circuit without a witness'
        p = dict(j.params, novalues=1)
        outs = s.m.execute(j.harness, p, limit=j.limit, budget=j.budget, fixed=j.fixed, feasible=s.feasible)
        nv = [o for o in outs if not o.died]
        verdict = 'holds'
        for o in outs:
            for q in o.panics:
                c = list(q.path)
                if j.panics is not None:
                    try:
                        c.append(T.bnot(j.panics(View(o.inputs, {}, {}, {}, [], params=j.params))))
                    except KeyError:
                        pass
                r, m, _ = smt.query(c, timeout=s.timeout)
                if r == 'unsat':
                    continue
                inp = env_inputs(o, m or {}, j.fixed)
                run = s.nat.run(j.harness, p, inp)
                if run.panic is not None and not run.assume_failed:
                    s.violation(label, inp, f'synthesis without a witness panics: {run.panic}')
                    verdict = 'violated'
                else:
                    verdict = 'undecided'
                break
            if verdict != 'holds':
                break
        if verdict == 'holds':
            for o in nv:
                r, m, _ = smt.query(o.pre + o.path, timeout=s.timeout)
                if r == 'unsat':
                    continue
                inp = env_inputs(o, m or {}, j.fixed)
                if ('err', 0) in o.outs:
                    run = s.nat.run(j.harness, p, inp)
                    if ('err', 0) in run.outs:
                        s.violation(label, inp, f'synthesis without a witness returns error {run.outs["err", 0]}')
                        verdict = 'violated'
                    else:
                        verdict = 'undecided'
                    break
                ref = groups.get(tuple(c.id for c in o.choices))
                if ref is None:
                    continue
                if shape_sig(o) != shape_sig(ref[0][0]):
                    a = s.nat.run(j.harness, p, inp)
                    b = s.nat.run(j.harness, j.params, env_inputs(ref[0][0], ref[0][1], j.fixed))
                    if a.panic is None and b.panic is None and native_sig(a) != native_sig(b):
                        s.violation(label, inp, 'synthesis without a witness emits a different circuit: ' + sig_diff(a, b))
                        verdict = 'violated'
                    else:
                        verdict = 'undecided'
                    break
        if verdict == 'undecided':
            s.res['undecided'].append(dict(label=label, why='executor and native build disagree on the run without a witness'))
        s.record(label, verdict, 'normal form' if verdict == 'holds' else 'smt')

    def constant(s, c):
        return all(a.args[0].rsplit('.', 1)[0] in s.job.shape.get('consts', ()) for a in smt.variables([T.eq(c, 0)]))

    def shape_differs(s, label, o1, m1, o2, m2):
        i1, i2 = env_inputs(o1, m1 or {}, s.job.fixed), env_inputs(o2, m2 or {}, s.job.fixed)
        a, b = s.nat.run(s.job.harness, s.job.params, i1), s.nat.run(s.job.harness, s.job.params, i2)
        if a.panic is None and b.panic is None and ('err', 0) not in a.outs and ('err', 0) not in b.outs and native_sig(a) != native_sig(b):
            s.violation(label, i2, 'the circuit differs from the one for the other witness: ' + sig_diff(a, b),
                        other=[[n, i, str(v)] for (n, i), v in sorted(i1.items())])
            return 'violated'
        s.res['undecided'].append(dict(label=label, why='two paths emit different circuits but the native runs do not'))
        return 'undecided'

    def coefficient_varies(s, label, o, c, pre, m):
        if m:
            x = T.evaluate([c], _Dflt(m))[0]
            r, m2, _ = smt.query(pre + [T.bnot(T.eq(c, x))], timeout=s.timeout)
            if r == 'unsat':
                return 'holds'
            if r == 'sat':
                i1, i2 = env_inputs(o, m, s.job.fixed), env_inputs(o, m2, s.job.fixed)
                a, b = s.nat.run(s.job.harness, s.job.params, i1), s.nat.run(s.job.harness, s.job.params, i2)
                if a.panic is None and b.panic is None and native_sig(a) != native_sig(b):
                    s.violation(label, i2, 'a coefficient depends on the witness: ' + sig_diff(a, b),
                                other=[[n, i, str(v)] for (n, i), v in sorted(i1.items())])
                    return 'violated'
        s.res['undecided'].append(dict(label=label, why='a coefficient depends on an input'))
        return 'undecided'

    # ------------------------------------------------------------- forged assignments
    def forged(s, o, k, pre):
        j = s.job
        # inputs: output LCs named like an input of the harness, single variable
        known = {}
        for key, lc in o.lcs.items():
            t = o.inputs.get(key)
            if t is not None and len(lc) == 1 and lc[0][1] == 1 and lc[0][0] != 0:
                known[lc[0][0]] = t
        for name in j.ties:
            for key, t in o.inputs.items():
                if key[0] == name and t.__class__ is Poly:
                    x = s.wire_of(o, t, known)
                    if x is None:
                        s.res['undecided'].append(dict(label='forged', why=f'no wire carries the input {key}'))
                    else:
                        known[x] = t
        if j.tie_sha:
            for c, (ins, outs) in enumerate(o.sha):
                for i, (kind, x, val) in ins.items():
                    if kind:
                        known.setdefault(x, val if kind == 1 else T.sub(1, val))
                for i, x in outs.items():
                    known[x] = o.inputs[('sha', 256 * c + i)]
        s.found = {}
        if j.finds is not None:
            hv = View(o.inputs, o.outs, o.lcs, o.vals, o.cons, sha=o.sha, params=j.params)
            last = {}
            for key, t in j.finds(hv).items():
                x = s.wire_of(o, t, known, last.get(key[0], 0))     # wires of one name: in this order
                if x is not None:
                    last[key[0]] = x
                    s.found[key] = [(x, 1)]
            o.lcs.update(s.found)
        allv = [v for v in o.vals]
        S = r1cs.System(o.cons, allv, known, keep=[v for lc in o.lcs.values() for v, _ in lc])
        w = {v: S.term(v) for v in allv}
        cons = S.formulas()
        if os.environ.get('SYMX_DEBUG') == '3':
            with open('/tmp/dbg.forms', 'w') as f:
                for x in pre + cons:
                    f.write((T.showb(x, 3) if x.__class__ is B else str(x)) + '\n')
        view = View(o.inputs, static_outs(o.outs), o.lcs, w, o.cons, sha=o.sha, forged=True, params=j.params)
        if j.assume is not None:
            pre = pre + [j.assume(view)]
        # the formulas must accept exactly those native runs that satisfy their constraints, also after
        # single wires have been changed
        tried = 0
        for env, run in s.vruns:
            if len(run.cons) != len(o.cons) or list(run.vals) != list(o.vals) or any(v is None for v in run.vals.values()):
                continue
            try:
                if not all(T.evaluate(list(o.pre) + o.choices, env)) or any(T.evaluate([t], env)[0] % FP != run.vals[v] for v, t in known.items()):
                    continue
            except KeyError:
                continue
            for k in range(3):
                vals = dict(run.vals)
                free = [v for v in vals if v not in known]
                if k and free:
                    x = s.rnd.choice(free)
                    vals[x] = s.rnd.choice([(vals[x] + 1) % FP, 1 - vals[x] if vals[x] < 2 else 0, s.rnd.randrange(FP)])
                good = not r1cs.holds(run.cons, {**vals, 0: 1})
                tried += 1
                if S.accepts(vals, env) != good:
                    s.res['mismatches'].append(dict(inputs=[], what=f'the encoding of the constraints {"rejects" if good else "accepts"} an assignment that the native constraints {"accept" if good else "reject"}'))
                    return
        s.res['enc_validated'] = s.res.get('enc_validated', 0) + tried
        s.res['linear'] = len(S.linear)
        s.res['products'] = len(S.products)
        if j.zeros:
            # wires that no assignment can make different from 0: with them out of the way, sums stay below p
            zero = [x for x in s.zero_wires(o, S, known) if s.near_unsat(pre + cons, T.bnot(T.eq(S.term(x), 0)))]
            if zero:
                S = r1cs.System(o.cons, allv, {**known, **{x: 0 for x in zero}}, keep=[v for lc in o.lcs.values() for v, _ in lc])
                w = {v: S.term(v) for v in allv}
                cons = S.formulas()
                view = View(o.inputs, static_outs(o.outs), o.lcs, w, o.cons, sha=o.sha, forged=True, params=j.params)
        lemmas = []
        for lab, t in j.spec(view):
            lab = 'forged: ' + lab
            if t.__class__ is not B and t:
                s.record(lab, 'holds', 'normal form')
                smt.STATS.trivial += 1
                continue
            fs = lemmas + pre + cons
            if len(fs) > 200 and s.near_unsat(fs, T.bnot(t)):
                verdict = 'holds'
            elif len(fs) > 200 and s.forge(o, known, pre, lab, t):
                verdict = 'violated'
            else:
                verdict = s.solve(fs, t, lambda m: s.replay_forged(o, S, known, m, lab, view), near=False)
                if verdict == 'undecided' and len(fs) <= 200 and s.forge(o, known, pre, lab, t):
                    verdict = 'violated'
            if verdict == 'holds' and j.lemmas and t.__class__ is B:
                lemmas.append(t)
            if verdict == 'undecided':
                s.res['undecided'].append(dict(label=lab, why='no unsat answer and no forged assignment that replays natively'))
            s.record(lab, verdict, 'smt')

    def forge(s, o, known, pre, lab, t, budget=100):
        """a forged assignment for given inputs: the constraints, with the inputs put in, leave few wires open.
        Only ever finds violations."""
        t0 = time.time()
        names = {}
        for key, x in o.inputs.items():
            names.setdefault(key, x)
        left = 0
        for n in range(80):
            if time.time() - t0 > budget or left >= 12:
                break
            g = {}
            if s.job.gen_bad is not None and n % 2:
                g = s.job.gen_bad(s.rnd, n // 2)
            elif s.job.gen is not None and n % 5 != 4:
                g = s.job.gen(s.rnd)
            env, inp = s.make_env(names, g)
            t1 = smt.deep_subst(t, env) if t.__class__ is B else t
            if t1.__class__ is not B and t1:
                continue
            try:
                if not all(T.evaluate(list(pre), env)):
                    continue
                consts = {v: T.evaluate([x], env)[0] % FP for v, x in known.items()}
            except (KeyError, ZeroDivisionError, T.Unsupported):
                continue
            left += 1
            allv = list(o.vals)
            S = r1cs.System(o.cons, allv, consts, keep=[v for lc in o.lcs.values() for v, _ in lc])
            cons = S.formulas()
            if any(c.__class__ is not B and not c for c in cons):
                continue
            view = View(inp, static_outs(o.outs), o.lcs, {v: S.term(v) for v in allv}, o.cons, sha=o.sha, forged=True, params=s.job.params)
            for l2, t2 in s.job.spec(view):
                if 'forged: ' + l2 != lab:
                    continue
                if t2.__class__ is B:
                    t2 = smt.deep_subst(t2, env)
                r, m, exact = smt.query(cons + [T.bnot(t2)], timeout=8, nl=True)
                if os.environ.get('SYMX_DEBUG'):
                    print('forge', lab, n, r, len(cons), flush=True)
                if r == 'sat' and s.replay_forged(o, S, known, {**env, **m}, lab, view):
                    return True
        return False

    def zero_wires(s, o, S, known):
        """wires that are 0 in every native run and get a large coefficient in an equation over several of them"""
        rows = [run for env, run in s.vruns if len(run.cons) == len(o.cons) and list(run.vals) == list(o.vals)]
        xs = set()
        for L in S.linear:
            if len(L) < 4:
                continue
            best = min((max(min(c * q % FP, FP - c * q % FP) for c in L.values()), q) for v in L if v for q in [pow(L[v], FP - 2, FP)])
            if best[0] > FP >> 32:
                xs |= set(L) - {0}
        return [x for x in sorted(xs) if x in o.vals and x not in known and all(run.vals[x] == 0 for run in rows)]

    def wire_of(s, o, t, known, after=0):
        """the first wire outside `known` whose honest value is t: the same term, or the same number in
        every native run of the validation"""
        free = sorted(v for v in o.vals if v not in known and v > after)
        for x in free:
            if o.vals[x].__class__ is Poly and t.__class__ is Poly and o.vals[x].id == t.id:
                return x
        rows = []
        for env, run in s.vruns:
            if len(run.cons) == len(o.cons) and list(run.vals) == list(o.vals):
                try:
                    rows.append((T.evaluate([t], env)[0], run))
                except (KeyError, ZeroDivisionError, T.Unsupported):
                    pass
        if len({r[0] for r in rows}) < 2:
            return None
        for x in free:
            if all(run.vals[x] == n for n, run in rows):
                return x
        return None

    def replay_forged(s, o, S, known, m, lab, view):
        inp = env_inputs(o, m, s.job.fixed)
        run = s.nat.run(s.job.harness, s.job.params, inp)
        if run.assume_failed:
            return False
        if run.panic is not None or len(run.cons) != len(o.cons):
            # the honest prover refuses these inputs: take the circuit from inputs it accepts
            run = s.nat.run(s.job.harness, s.job.params, env_inputs(o, s.refmodel, s.job.fixed)) if s.refmodel is not None else None
            if run is None or run.assume_failed or run.panic is not None or len(run.cons) != len(o.cons):
                run = next((r for _, r in s.vruns if len(r.cons) == len(o.cons)), None)
                if run is None:
                    return False
        env = _Dflt(m)
        fixed = {}
        for v, t in known.items():
            fixed[v] = T.evaluate([t], env)[0]
        guess = {}
        for v in run.vals:
            t = S.term(v)
            guess[v] = T.evaluate([t], env)[0] if t.__class__ is Poly else t
        # variables of the outputs first, so that the claimed result is kept
        outv = [v for key, lc in o.lcs.items() for v, _ in lc if v and v in guess]
        order_all = list(guess)
        for order, seed_out in ((outv + order_all, True), (order_all, False), (list(reversed(order_all)), False)):
            f = dict(fixed)
            if seed_out:
                for v in outv:
                    f.setdefault(v, guess[v])
            w = r1cs.complete(run.cons, f, guess, order)
            if w is None:
                continue
            ints = dict(w)
            v = View(inp, static_outs(run.outs), {**run.lcs, **s.found}, ints, run.cons, forged=True, params=s.job.params, native=True, sha=native_sha(run))
            if s.job.assume is not None and not s.job.assume(v):
                continue
            for l2, t in s.job.spec(v):
                if 'forged: ' + l2 == lab and not t:
                    diff = [f'{x}: honest {run.vals[x]} forged {w[x]}' for x in run.vals if run.vals[x] != w[x]]
                    s.violation(lab, inp, 'an assignment that satisfies every constraint of the native circuit breaks the obligation',
                                forged={str(x): str(y) for x, y in list(w.items())[:4000]}, changed=diff[:20])
                    return True
        return False

    # ------------------------------------------------------------- validation of the executor
    def make_env(s, names, g):
        """values for the inputs `names`: those of g, random ones otherwise.  -> by variable, by input"""
        env = {}
        inp = {}
        for key, t in names.items():
            if t.__class__ is not Poly:
                inp[key] = t
                continue
            lo, hi = T.rng(t)
            if key in g:
                x = g[key]
            else:
                x = rand_val(s.rnd, lo, hi)
            inp[key] = x
            nm = f'{key[0]}.{key[1]}'
            if nm + '.hi' in _varnames():
                env[nm] = x & ((1 << 64) - 1)
                env[nm + '.hi'] = x >> 64
            else:
                env[nm] = x
        return env, inp

    def validate(s):
        j = s.job
        n = j.samples if j.samples is not None else (6 if s.tier == 'quick' else 25)
        done = 0
        tries = 0
        names = {}
        for o in s.outs:
            for key, t in o.inputs.items():
                names.setdefault(key, t)
        while done < n and tries < 4 * n + 4:
            tries += 1
            if j.gen is not None and tries % 3 != 0:
                g = j.gen(s.rnd)
            else:
                g = {}
            env, inp = s.make_env(names, g)
            run = s.nat.run(j.harness, j.params, inp)
            if run.assume_failed:
                continue
            done += 1
            if run.panic is None:
                s.vruns.append((env, run))
            e = s.compare(env, run)
            if e:
                s.res['mismatches'].append(dict(inputs=[[k[0], k[1], str(v)] for k, v in inp.items()], what=e))
                if len(s.res['mismatches']) >= 2:
                    return
        s.res['validated'] = done

    def compare(s, env, run):
        ev = lambda ts: T.evaluate(ts, env)
        for o in s.outs:
            # which path do these inputs take?
            try:
                if not all(ev(o.pre)):
                    continue
                hit = [p for p in o.panics if all(ev(p.path))]
                if run.panic is not None:
                    if hit:
                        return None
                    continue
                if not all(ev(o.path)) or o.died:
                    if hit:
                        return f'the executor predicts a panic ({hit[0].msg} at {hit[0].loc}), the native run has none'
                    continue
                if hit:
                    return f'the executor predicts a panic ({hit[0].msg} at {hit[0].loc}), the native run has none'
            except KeyError:
                continue
            if set(o.outs) != set(run.outs):
                return f'different outputs: {set(o.outs) ^ set(run.outs)}'
            ks = list(o.outs)
            for k, x in zip(ks, ev([o.outs[k] for k in ks])):
                if x != run.outs[k]:
                    return f'output {k}: executor {x}, native {run.outs[k]}'
            if o.order != run.order:
                return 'different sequence of allocations and constraints'
            for k, v in o.vals.items():
                x = None if v is None else ev([v])[0] % FP
                if x != run.vals[k]:
                    return f'witness value of variable {k}: executor {x}, native {run.vals[k]}'
            for k in o.lcs:
                if _nlc(o.lcs[k], ev) != _nlc(run.lcs.get(k, []), ev):
                    return f'linear combination {k} differs'
            for i, (a, b) in enumerate(zip(o.cons, run.cons)):
                for x, y in zip(a, b):
                    if _nlc(x, ev) != _nlc(y, ev):
                        return f'constraint {i} differs'
            if o.notes != run.notes:
                return f'notes differ: {o.notes} {run.notes}'
            return None
        if run.panic is not None:
            return f'native run panics ({run.panic}), the executor predicts none'
        return 'no executor path covers these inputs'


def conjuncts(neg):
    """neg = rest and not (c1 and c2 ...) -> (rest, [c1, c2 ...]) or None"""
    if neg.__class__ is not B:
        return None
    args = list(neg.args) if neg.kind == 'and' else [neg]
    c = [x for x in args if x.kind == 'not' and x.args[0].__class__ is B and x.args[0].kind == 'and']
    if not c:
        return None
    g = max(c, key=lambda x: len(x.args[0].args))
    return [x for x in args if x is not g], list(g.args[0].args)


def native_sha(run):
    calls = [({}, {}) for _ in range(1 + max([c for c, _ in list(run.sha_in) + list(run.sha_out)], default=-1))]
    for (c, i), x in run.sha_in.items():
        calls[c][0][i] = x
    for (c, i), x in run.sha_out.items():
        calls[c][1][i] = x
    return calls


def _nlc(l, ev):
    d = {}
    for v, c in l:
        d[v] = (d.get(v, 0) + (ev([c])[0] if c.__class__ is Poly else c)) % FP
    return {v: c for v, c in d.items() if c}


def static_outs(outs):
    """the outputs that describe a result's parameters and do not depend on witness values"""
    return {k: x for k, x in outs.items() if k[0].endswith(('.mw', '.min', '.n', '.w')) and x.__class__ is not Poly}


def shape_sig(o):
    return (tuple(o.order), tuple(tuple(tuple((v, c.id if c.__class__ is Poly else c) for v, c in x) for x in abc) for abc in o.cons),
            tuple((k, tuple((v, c.id if c.__class__ is Poly else c) for v, c in l)) for k, l in sorted(o.lcs.items())))


def native_sig(r):
    return (tuple(r.order), tuple(tuple(tuple(sorted(_nlc(x, None).items())) for x in abc) for abc in r.cons),
            tuple((k, tuple(sorted(_nlc(l, None).items()))) for k, l in sorted(r.lcs.items())))


def sig_diff(a, b):
    if a.order != b.order:
        return f'{len(a.vals)} variables and {len(a.cons)} constraints against {len(b.vals)} and {len(b.cons)}'
    for i, (x, y) in enumerate(zip(a.cons, b.cons)):
        if [_nlc(l, None) for l in x] != [_nlc(l, None) for l in y]:
            return f'constraint {i}'
    return 'the wires of the result'


def _varnames():
    return {a.args[0] for a in T.ATOMS if a.kind == 'var'}


def rand_val(rnd, lo, hi):
    q = rnd.random()
    if hi <= lo:
        return lo
    if q < .12:
        return lo
    if q < .24:
        return hi
    if q < .4:
        return min(hi, lo + rnd.randrange(8))
    if q < .55:
        return max(lo, hi - rnd.randrange(8))
    if q < .75:
        b = rnd.randrange(1, (hi - lo).bit_length() + 1)
        return min(hi, lo + rnd.getrandbits(b))
    return rnd.randint(lo, hi)


def short(loc):
    if not loc:
        return '?'
    i = loc.find('src/')
    return loc[i:] if i >= 0 else loc


def coverage(m):
    """{file below src/: {function: number of distinct executed source lines}} from the executed IR"""
    import re
    acc = {}
    done = set()
    for f in m.mod.functions.values():
        hit = getattr(f, 'hit', None)
        if not hit or not any(hit):
            continue
        dbg = getattr(f, 'dbg', None) or ()
        for k, h in enumerate(hit):
            if not h:
                continue
            for d in dbg[k]:
                while d and d not in done:
                    done.add(d)
                    l = m.mod.loc(d)
                    if l and l[1] and l[0].startswith(REPO_SRC):
                        acc.setdefault(l[0][len(REPO_SRC):], {}).setdefault(m.mod.scope_fn(d), set()).add(l[1])
                    x = re.search(r'inlinedAt: (![0-9]+)', m.mod.md.get(d, ''))
                    d = x.group(1) if x else None
    return {f: {n or '?': len(ls) for n, ls in fs.items()} for f, fs in acc.items()}
