"""Driver for the native world."""
import subprocess


class Run:
    """what one native run showed"""

    def __init__(s):
        s.outs = {}
        s.lcs = {}
        s.cons = []
        s.vals = {}
        s.panic = None
        s.order = []
        s.sha_in = {}
        s.sha_out = {}
        s.notes = []
        s.assume_failed = False


class Native:
    def __init__(s, path):
        s.path = path
        s.p = None

    def start(s):
        s.p = subprocess.Popen([s.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, bufsize=1 << 20)

    def run(s, harness, params, inputs):
        if s.p is None or s.p.poll() is not None:
            s.start()
        w = ['job', f'harness {harness}']
        w += [f'param {k} {v}' for k, v in params.items() if isinstance(v, int)]
        w += [f'in {n} {i} {v}' for (n, i), v in inputs.items()]
        w.append('end')
        s.p.stdin.write('\n'.join(w) + '\n')
        s.p.stdin.flush()
        r = Run()
        buf = {}
        while True:
            l = s.p.stdout.readline()
            if not l:
                r.panic = 'process aborted'
                s.p = None
                return r
            l = l.rstrip('\n')
            if l == 'END':
                break
            t, _, rest = l.partition(' ')
            if t == 'O':
                n, i, v = rest.split(' ')
                r.outs[(n, int(i))] = int(v)
            elif t == 'L':
                f = rest.split(' ')
                lc = [tuple(map(int, x.split(':'))) for x in f[2:] if x]
                k = (f[0], int(f[1]))
                if k[0] in ('A', 'B', 'C') and k[1] == 0:
                    buf[k[0]] = lc
                else:
                    r.lcs[k] = lc
            elif t == 'A':
                v, x = rest.split(' ')
                r.vals[int(v)] = None if x == '-' else int(x)
                r.order.append('a%d' % (int(v) & 1))
            elif t == 'K':
                r.cons.append((buf['A'], buf['B'], buf['C']))
                r.order.append('c')
            elif t == 'S':
                c, i, kind, var, val = map(int, rest.split(' '))
                r.sha_in[(c, i)] = (kind, var, val)
            elif t == 'T':
                c, i, var = map(int, rest.split(' '))
                r.sha_out[(c, i)] = var
            elif t == 'P':
                if 'ASSUME' in rest:
                    r.assume_failed = True
                elif r.panic is None:
                    r.panic = rest
            elif t == 'N':
                r.notes.append(rest)
        return r

    def close(s):
        if s.p is not None:
            s.p.stdin.close()
            s.p.wait()
            s.p = None
