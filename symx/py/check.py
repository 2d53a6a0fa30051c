"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTRING] [--jobs N]

Decides one property on /repo's current tree: builds both worlds, executes every job of the
property symbolically, has every obligation decided by the SMT solvers, replays counterexamples on
the native build, and writes evidence/<id>.json."""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import llir
import props
import runner
import world

VERIF = world.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


def known_findings(pid):
    """{(job, label): entry}; only entries recorded as findings suppress anything"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('fixed:') or line.startswith('#'):
                    continue
                e = json.loads(line)
                if e['property'] == pid:
                    for j in e['jobs']:
                        for lab in e['labels']:
                            out[(j, lab)] = e
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        w = world.build()
    except world.BuildError as e:
        print(str(e))
        print(f'{pid}: no answer, the tree does not build')
        return 2
    t_build = time.time() - t0
    jobs = [j for j in props.PROPS[pid]['jobs'](tier) if not a.only or a.only in j.name]
    assert len({j.name for j in jobs}) == len(jobs), 'job names'
    mod = llir.Module(w['ll'])
    t_load = time.time() - t0 - t_build
    budget = 780 if tier == 'quick' else int(os.environ.get('SYMX_THOROUGH_S', '7200'))

    def progress(r):
        if a.v:
            bad = [x['label'] for x in r['violations']]
            und = [x['label'] + ': ' + x['why'][-200:] for x in r['undecided']]
            print(f"  {r['job']:<28} {r['seconds']:7.1f}s paths {r['paths']} cons {r['constraints']} obl {len(r['obligations'])} "
                  f"queries {r['solver']['queries']} {r['solver']['seconds']:.1f}s validated {r['validated']} "
                  + (f'VIOLATED {bad} ' if bad else '') + (f'UNDECIDED {und} ' if und else '')
                  + (f"MISMATCH {r['mismatches'][0]} " if r['mismatches'] else '') + ('; '.join(r['notes'])), flush=True)

    res = runner.run_jobs(jobs, mod, w['nat'], tier, seed, workers=a.jobs, deadline=t0 + budget, progress=progress)
    post = props.PROPS[pid].get('post')
    if post:
        post(jobs, res, w['nat'])
    known = known_findings(pid)
    new, old, undecided, mism = [], {}, [], []
    rdir = os.path.join(VERIF, 'replays')
    for r in res:
        for x in r['violations']:
            e = known.get((r['job'], x['label']))
            if e is not None:
                old.setdefault(e['id'], []).append((r['job'], x['label']))
            else:
                new.append(x)
        undecided += [(r['job'], x['label'], x['why']) for x in r['undecided'] if (r['job'], x['label']) not in known]
        mism += [(r['job'], x['what']) for x in r['mismatches']]
        if not r['validated'] and not r['undecided'] and not r.get('novalidate') and not r['mismatches'] and not r['violations']:
            undecided.append((r['job'], 'validation', 'the executor was compared with the native build on no input'))
        if not r['reach'] and not r['undecided'] and not r['mismatches'] and not r['violations'] and not r.get('may_panic'):
            undecided.append((r['job'], 'vacuity', 'no reachable path: ' + '; '.join(r['notes'])))
    with open(KNOWN) if os.path.exists(KNOWN) else open(os.devnull) as f:
        entries = [json.loads(l) for l in f if l.strip() and l.lstrip().startswith('{')]
    if not a.only:
        for e in entries:
            if e['property'] == pid:
                seen = old.get(e['id'])
                print(f"KNOWN-FINDING: property={pid} {e['id']}: {e['what']}" + ('' if seen else ' (not observed in this run)'))
    obl = [(r['job'], x) for r in res for x in r['obligations']]
    n_obl = len(obl)
    held = sum(1 for _, x in obl if x['verdict'] == 'holds')
    by_smt = sum(1 for _, x in obl if x['verdict'] == 'holds' and x['how'] == 'smt')
    queries = sum(r['solver']['queries'] for r in res)
    ssec = sum(r['solver']['seconds'] for r in res)
    by = {}
    fns = {}
    for r in res:
        for k, n in r['solver']['by'].items():
            by[k] = by.get(k, 0) + n
        for f, fs in r['functions'].items():
            for n, l in fs.items():
                d = fns.setdefault(f, {})
                d[n] = max(d.get(n, 0), l)
    nk = sum(len(x) for x in old.values())
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=time.time() - t0, violations=len(new),
              assumptions=props.ASSUMPTIONS + props.PROPS[pid].get('assumptions', []),
              coverage=dict(
                  explanation='Bounded symbolic verification: the compiled code (LLVM IR regenerated from /repo by this run) is '
                  'executed on symbolic inputs; every obligation below is decided for all input values within the stated bounds, '
                  'by an SMT solver or, where both sides reduce to one normal form, by term rewriting; "forged" obligations '
                  'quantify over every assignment of the recorded constraint system. Counterexamples are replayed natively.',
                  bounds=props.PROPS[pid].get('bounds', ''),
                  obligations=n_obl, discharged=held, discharged_by_solver=by_smt, discharged_by_normal_form=held - by_smt,
                  violated_known=nk, violated_new=len(new), undecided=len(undecided),
                  solver_queries=queries, solver_seconds=round(ssec, 2), solver_answers=by,
                  unsat=sum(r['solver']['unsat'] for r in res), sat=sum(r['solver']['sat'] for r in res),
                  unknown=sum(r['solver']['unknown'] for r in res),
                  functions_encoded={f: d for f, d in sorted(fns.items())},
                  executor_validated_on_native_runs=sum(r['validated'] for r in res),
                  reachable_paths=sum(r['reach'] for r in res),
                  build_seconds=round(t_build, 1), load_seconds=round(t_load, 1),
                  jobs=[dict(job=r['job'], harness=r['harness'], params=r['params'], paths=r['paths'], panics=r['panics'],
                             constraints=r['constraints'], obligations=len(r['obligations']), queries=r['solver']['queries'],
                             solver_seconds=round(r['solver']['seconds'], 2), seconds=round(r['seconds'], 2),
                             validated=r['validated'], notes=r['notes']) for r in res],
                  samples=[dict(job=j, label=x['label'], verdict=x['verdict'], how=x['how']) for j, x in obl[:12]],
                  undecided_list=[dict(job=j, label=l, why=y[-400:]) for j, l, y in undecided[:40]]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for j, what in mism:
        print(f'{pid}: job {j}: the symbolic executor and the native build disagree: {what}')
    for j, lab, why in undecided:
        print(f'{pid}: no answer for {j} / {lab}: {why[-300:]}')
    for k, x in enumerate(new):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, f'{pid}-{k}.json')
        with open(p, 'w') as f:
            json.dump(x, f, indent=1)
        if k < 20:
            print(f"{pid}: {x['job']} / {x['label']}: {x['what']}; inputs " + ' '.join(f'{n}[{i}]={y}' for n, i, y in x['inputs'])[:400])
            print(f'VIOLATION property={pid} replay={p}')
    print(f'{pid} ({tier}): {len(res)} jobs, {n_obl} obligations, {held} hold ({by_smt} by solver), {nk} known findings, {len(new)} new violations, '
          f'{len(undecided)} undecided, {len(mism)} mismatches; {queries} queries, {ssec:.1f} s solver, build {t_build:.0f} s, total {time.time() - t0:.0f} s')
    if new:
        return 1
    return 2 if undecided or mism else 0


if __name__ == '__main__':
    sys.exit(main())
