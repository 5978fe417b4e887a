"""Text files written for other programs: gen.vext, DOS.input, Slurm scripts."""
from vc.pylib import *
from vc.report import main
from vc import pytext
from vc.pyv import *
from props.C18 import text_rows

ID = 'C23'
GV, DI, JB = 'matersdk/io/pwmat/input/gen_vext.py', 'matersdk/io/pwmat/input/dos_input.py', 'matersdk/hpc/slurm/job.py'
TRUSTED = TRUSTED + ['vc/pytext.py: open, write, str.format, str()']


def flat(row):
    """tokens of a written line up to a comment: literal words and printed values; values touching a literal stay apart"""
    out, glue = [], False
    for x in row:
        if isinstance(x, str):
            head, hash_, _ = x.partition('#') if not (out == [] and x.startswith('#')) else (x, '', '')
            ws = head.split()
            for k, w in enumerate(ws):
                if k == 0 and glue and not head[0].isspace():
                    out.append(('touch', None))
                out.append(('lit', w))
            glue = bool(head) and not head[-1].isspace()
            if hash_:
                return out
        else:
            if glue:
                out.append(('touch', None))
            out.append(('val', x))
            glue = True
    return out


def same(it, what, x, v, ok=('', 's', 'd')):
    spec, val = x[1]
    it.check(what + ': printed in full', spec.lstrip('<>^0123456789') in ok)
    if isinstance(v, str) or v is None:
        it.check(what, val is v or val == v)
    else:
        it.check(what, num(val) == v)


def setting(it, what, row, key, vals, lists=True):
    """key = v1 v2 ..."""
    t = flat(row)
    n = 2
    it.check('%s: "%s =" and %d values apart' % (what, key, len(vals)), [y for x, y in t[:2]] == [key, '='] and all(x == 'lit' for x, _ in t[:2]) and [x for x, _ in t[2:]] == ['val'] * len(vals))
    for k, v in enumerate(vals):
        same(it, '%s: value %d' % (what, k), t[2 + k], v)


def u_vext(nd, kind):
    def run(it, m):
        files = pytext.out_files(it, ['PATH'])
        c = [z3.Real('c%d' % k) for k in range(3)]
        a = [z3.Real('a%d' % k) for k in range(nd)]
        t, add = z3.Int('type'), z3.Bool('add')
        it.assume(z3.And(t >= 1, t <= 3))       # asserted by the code
        o = it.call(m.get(it, 'GenVext'), [PList(list(c)), t, add] + a)
        it.method(o, 'to', 'PATH')
        rows = text_rows(files['PATH'].val)
        it.check('four lines', len(rows) == 4)
        setting(it, 'centre', rows[0], 'VR_CENTER', c)
        setting(it, 'type', rows[1], 'VR_TYPE', [t])
        setting(it, 'parameters', rows[2], 'VR_DETAIL', a)
        w = ''.join(x for x in rows[3] if isinstance(x, str)).split() if all(isinstance(x, str) for x in rows[3]) else None
        if w is None:
            x = [y for y in rows[3] if not isinstance(y, str)]
            raise Unsupported('flag printed as a value')
        it.check('flag T exactly if the field is added', z3.And(w[:2] == ['ADD_VR', '='], len(w) == 3, z3.Or(z3.And(w[2] == 'T', add), z3.And(w[2] == 'F', z3.Not(add)))))
    return unit('GenVext.to, %d parameters' % nd, GV, run, ['GenVext.__init__', 'GenVext.to'], exact=False)


def u_dos(default):
    def run(it, m):
        files = pytext.out_files(it, ['PATH'])
        if default:
            o = it.call(m.get(it, 'DosInput'), [])
            ma, mm, sm, ne, g = z3.IntVal(0), z3.IntVal(0), z3.RealVal('0.04'), z3.IntVal(4000), [z3.IntVal(6)] * 3
        else:
            ma, mm, sm, ne, g = z3.Int('ma'), z3.Int('mm'), z3.Real('sm'), z3.Int('ne'), [z3.Int('g%d' % k) for k in range(3)]
            o = it.call(m.get(it, 'DosInput'), [], dict(mark_atoms=ma, mark_method=mm, ismear=sm, num_energies=ne, grid_interp=PList(list(g))))
        it.method(o, 'to', 'PATH')
        rows = text_rows(files['PATH'].val)
        it.check('five lines', len(rows) == 5)
        if default:
            from fractions import Fraction
            show = lambda x: x if isinstance(x, str) else '%r' % float(Fraction(str(x[1]) if not z3.is_expr(x[1]) else x[1].as_fraction() if z3.is_rational_value(x[1]) else x[1].as_long()))
            it.check('the default settings', [[float(x) for x in ''.join(map(show, r)).split('#')[0].split()] for r in rows] == [[0], [0], [.04, 4000], [6, 6, 6], [0]])
            return
        f = [flat(r) for r in rows]
        for k, n in ((0, 1), (1, 1), (2, 2), (3, 3)):
            it.check('line %d: %d values' % (k + 1, n), [x for x, _ in f[k]] == ['val'] * n)
        same(it, 'atoms', f[0][0], ma)
        same(it, 'method', f[1][0], mm)
        spec = f[2][0][1][0]
        it.check('smearing with five decimals', spec.lstrip('<>^0123456789') == '.5f')
        it.check('smearing', real(f[2][0][1][1]) == sm)
        same(it, 'energy grid', f[2][1], ne)
        for k in range(3):
            same(it, 'interpolation grid %d' % k, f[3][k], g[k])
        it.check('last line: 0', [x for x in f[4]] == [('lit', '0')])
    return unit('DosInput.to%s' % (', defaults' if default else ''), DI, run, ['DosInput.__init__', 'DosInput.to'], exact=False)


KEYS = [('--partition=', 'partition'), ('--job-name=', 'name'), ('--nodes=', 'num_nodes'), ('--ntasks-per-node=', 'num_tasks_per_node'), ('--threads-per-core=', 'threads_per_core'),
        ('--gres=gpu:', 'num_gpus'), ('--gpus-per-task=', 'num_gpus_per_task')]


def u_job():
    def run(it, m):
        it.ext['os.getcwd'] = lambda it: 'CWD'
        it.ext['os.path.join'] = lambda it, *p: '/'.join(p)
        files = pytext.out_files(it, ['CWD/FILE'])
        v = {n: ('PART' if n == 'partition' else 'NAME' if n == 'name' else z3.Int(n)) for _, n in KEYS}
        it.contracts['Job.attach_command'] = lambda it, o: 'COMMAND'
        o = it.call(m.get(it, 'Job'), [], dict(v))
        it.method(o, 'to', 'FILE')
        rows = text_rows(files['CWD/FILE'].val)
        it.check('shell', bool(rows) and ''.join(x for x in rows[0] if isinstance(x, str)) == '#!/bin/bash' and all(isinstance(x, str) for x in rows[0]))
        head = [r for r in rows if r and isinstance(r[0], str) and r[0].startswith('#SBATCH')]
        it.check('a line per option, right after the first', rows[1:1 + len(KEYS)] == head and len(head) == len(KEYS))
        for k, n in KEYS:
            hit = []
            for r in head:
                s = ''.join(x if isinstance(x, str) else '\0' for x in r).rstrip()
                vals = [x for x in r if not isinstance(x, str)]
                if isinstance(v[n], str):
                    hit += [True for _ in [0] if s == '#SBATCH ' + k + v[n] and not vals or s == '#SBATCH ' + k + '\0' and vals[0][1] == v[n]]
                elif s == '#SBATCH ' + k + '\0':
                    hit.append(vals[0])
            it.check('option %s on a line of its own, once' % k, len(hit) == 1)
            if hit and hit[0] is not True:
                it.check('option %s: its value' % k, z3.And(hit[0][0].lstrip('<>^0123456789') in ('', 'd', 's'), num(hit[0][1]) == v[n]))
        body = [r for r in rows[1 + len(KEYS):] if ''.join(x if isinstance(x, str) else '\0' for x in r).strip()]
        it.check('then the command', len(body) == 1 and ''.join(x if isinstance(x, str) else str(x[1]) for x in body[0]).strip() == 'COMMAND')
    return unit('Job.to', JB, run, ['Job.__init__', 'Job.to'], exact=False)


def units(tier):
    return [u_vext(2, 3), u_vext(3, 1), u_vext(6, 2), u_dos(False), u_dos(True), u_job()]


BOUNDED_RULE = 'random parameters, files written over older ones and parsed back'


def bounded(b):
    import tempfile, shutil, os, random
    r = random.Random(b.seed)
    try:
        G = load('matersdk.io.pwmat.input.gen_vext').GenVext
        D = load('matersdk.io.pwmat.input.dos_input').DosInput
        J = load('matersdk.hpc.slurm.job').Job
    except Exception as e:
        b.bad('import fails: %r' % e, {})
        return
    d = tempfile.mkdtemp(prefix='c23.')
    cwd = os.getcwd()
    os.chdir(d)
    num_ = lambda: r.choice((0, -0.0, 1, r.uniform(-2, 2), r.uniform(0, 1) * 10 ** -r.randint(3, 9), 0.5))
    try:
        for t in range(150 if not b.thorough else 3000):
            ty = r.randint(1, 3)
            c, a, add = [num_() for _ in range(3)], [num_() for _ in range({1: 3, 2: 6, 3: 2}[ty])], r.random() < .5
            inp = dict(kind='gen.vext', centre=c, type=ty, add=add, detail=a)
            p = os.path.join(d, r.choice(('a', 'b')))
            if guard(b, 'GenVext', inp, lambda: (G(c, ty, add, *a).to(p), 1)):
                s = open(p).read()
                kv = {l.split('=')[0].strip(): l.split('=')[1].split() for l in s.splitlines() if l.count('=') == 1}
                if len(s.splitlines()) != 4 or set(kv) != {'VR_CENTER', 'VR_TYPE', 'VR_DETAIL', 'ADD_VR'} or [float(x) for x in kv['VR_CENTER']] != c or kv['VR_TYPE'] != [str(ty)] or [float(x) for x in kv['VR_DETAIL']] != a or kv['ADD_VR'] != ['T' if add else 'F']:
                    b.bad('gen.vext', dict(inp, got=s))
            try:
                G(c, r.choice((0, 4, -1)), add, *a)
                b.bad('gen.vext of a type other than 1, 2, 3', inp)
            except AssertionError:
                pass
            k = dict(mark_atoms=r.randint(0, 1), mark_method=r.randint(0, 1), ismear=round(r.uniform(.001, 2), 5), num_energies=r.randint(1, 10 ** r.randint(1, 11)), grid_interp=[r.randint(1, 20) for _ in range(3)])
            if guard(b, 'DosInput', k, lambda: (D(**k).to(p), 1)):
                s = open(p).read()
                l = [x.split('#')[0].split() for x in s.splitlines()]
                want = [[k['mark_atoms']], [k['mark_method']], [k['ismear'], k['num_energies']], k['grid_interp'], [0]]
                if [[float(y) for y in x] for x in l] != [[float(y) for y in x] for x in want]:
                    b.bad('DOS.input', dict(k, got=s))
            v = {n: (r.choice(('gpu', 'cpu-long')) if n == 'partition' else 'job%d' % t if n == 'name' else r.choice((0, 1, r.randint(1, 64), 1000))) for _, n in KEYS}

            class Mine(J):
                def attach_command(self):
                    return 'srun pwmat %d' % t
            if guard(b, 'Job', v, lambda: (Mine(**v).to('job%d.sh' % (t % 2)), 1)):
                s = open('job%d.sh' % (t % 2)).read().splitlines()
                want = ['#!/bin/bash'] + sorted('#SBATCH %s%s' % (kk, v[n]) for kk, n in KEYS) + ['srun pwmat %d' % t]
                got = [x.rstrip() for x in s if x.strip()]
                if got[:1] + sorted(x for x in got if x.startswith('#SBATCH')) + got[1 + len(KEYS):] != want:
                    b.bad('Slurm script', dict(v, got=s))
            b.ok((t,), dict(type=ty))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


if __name__ == '__main__':
    import sys
    import props.C23 as m
    sys.exit(main(m))
