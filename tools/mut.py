"""developer tool: mutation / refactoring sweep.  SPEC defines M = [(id, prop(s), file, [(old,new),...])...]; ids starting with 'r' are behaviour-preserving.
usage: mut.py SPEC.py [id-prefix ...]"""
import sys, os, subprocess, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
root = '/verif'
M = runpy.run_path(sys.argv[1])['M']
sel = sys.argv[2:]
if sel:
    M = [m for m in M if any(m[0].startswith(s) for s in sel)]
def one(m):
    i, props, f, edits = m
    W = '/tmp/w/mut_%s' % i
    subprocess.run('rm -rf %s; mkdir -p %s; tar -C /repo --exclude=./source/build --exclude=./.git -cf - . | tar -C %s -xf -' % (W, W, W), shell=True)
    out = []
    try:
        ed = edits if isinstance(edits, dict) else {f: edits}
        for ff, es in ed.items():
            p = W + '/' + ff
            t = open(p).read()
            for e in es:
                if callable(e):
                    u = e(t)
                    if u == t:
                        return '%-8s NO EDIT' % i
                    t = u
                    continue
                o, n = e[:2]
                if t.count(o) != (e[2] if len(e) > 2 else 1):
                    return '%-8s BAD EDIT count %d: %r' % (i, t.count(o), o[:60])
                t = t.replace(o, n)
            open(p, 'w').write(t)
        for pr in props.split():
            try:
                c = subprocess.run(['/opt/venv/bin/python', '-m', 'props.' + pr, 'quick'], cwd=root, capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, VERIF_REPO=W, VERIF_TIER='quick', VERIF_SEED='1', PYTHONDONTWRITEBYTECODE='1'))
                v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
                nf = bool(v) and all('no-failing-input' in l for l in v)
                last = c.stdout.strip().splitlines()[-1:] or ['']
                st = {0: 'quiet', 1: 'ALARM' + ('(nofail)' if nf else '')}.get(c.returncode, 'RC%d %s' % (c.returncode, c.stderr[-300:]))
                good = (i.startswith('r')) == (c.returncode == 0)
                out.append('%s%s %s %s' % ('' if good else '*** ', pr, st, '' if good and c.returncode else last[0][:170]))
            except subprocess.TimeoutExpired:
                out.append('*** %s TIMEOUT' % pr)
    finally:
        shutil.rmtree(W, ignore_errors=True)
    return '%-8s %s' % (i, '; '.join(out))
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for r in ex.map(one, M):
        print(r, flush=True)
