"""Runs jobs in forked workers, one process per job."""
import multiprocessing as mp
import os
import signal
import time


def _child(job, module, natpath, tier, seed, conn, memlimit):
    import resource
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
    import machine
    import native
    import engine
    try:
        r = engine.Runner(job, machine.Machine(module), native.Native(natpath), tier, seed).run()
    except BaseException as e:
        import traceback
        r = dict(job=job.name, harness=job.harness, params=job.params, obligations=[], violations=[],
                 undecided=[dict(label='internal', why=traceback.format_exc(limit=-6))], mismatches=[], notes=[],
                 paths=0, panics=0, constraints=0, validated=0, reach=0, functions={}, seconds=0, forks=0,
                 solver=dict(queries=0, unsat=0, sat=0, unknown=0, seconds=0, by={}, trivial=0))
    conn.send(r)
    conn.close()


def run_jobs(jobs, module, natpath, tier, seed, workers=8, deadline=None, memlimit=6 << 30, progress=None):
    ctx = mp.get_context('fork')
    todo = sorted(jobs, key=lambda j: -j.weight)
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < workers:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(j, module, natpath, tier, seed, b, memlimit))
            p.start()
            b.close()
            live[j.name] = (p, a, j, time.time())
        for nm, (p, a, j, t0) in list(live.items()):
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = fail(j, 'worker died')
            elif not p.is_alive():
                try:             # it may have answered since
                    r = a.recv() if a.poll() else fail(j, f'worker died ({p.exitcode})')
                except EOFError:
                    r = fail(j, f'worker died ({p.exitcode})')
            elif deadline and time.time() > deadline:
                r = fail(j, 'out of time')
            if r is not None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                p.join()
                a.close()
                del live[nm]
                out[nm] = r
                if progress:
                    progress(r)
        time.sleep(0.01)
    return [out[j.name] for j in jobs]


def fail(j, why):
    return dict(job=j.name, harness=j.harness, params=j.params, obligations=[], violations=[],
                undecided=[dict(label='job', why=why)], mismatches=[], notes=[], paths=0, panics=0, constraints=0,
                validated=0, reach=0, functions={}, seconds=0, forks=0,
                solver=dict(queries=0, unsat=0, sat=0, unknown=0, seconds=0, by={}, trivial=0))
