"""developer tool: create /verif/seeded/<id> from a spec module, confirm the demo, run the check against a scratch copy.
usage: seed.py SPEC.py [id ...]   (SPEC defines SEEDS = {id: dict(prop, file|files, edits=[(old,new)], demo(text of demo body), files={name:text}, needs, breaks)})"""
import sys, os, subprocess, json, shutil, runpy
root = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
spec = runpy.run_path(sys.argv[1])['SEEDS']
ids = sys.argv[2:] or list(spec)
W = '/tmp/w/seedrepo'
def sh(c, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(c, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
if not os.path.isdir(W):
    sh('cp -a /repo %s' % W)
sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=W)
for i in ids:
    s = spec[i]
    d = '%s/seeded/%s' % (root, i)
    os.makedirs(d, exist_ok=True)
    sh('git checkout -q -- .', cwd=W)
    edits = s['edits'] if isinstance(s['edits'], dict) else {s['file']: s['edits']}
    open(d + '/demo.sh', 'w').write(s['demo'])
    os.chmod(d + '/demo.sh', 0o755)
    for n, t in s.get('files', {}).items():
        open(d + '/' + n, 'w').write(t)
    r0 = sh('bash %s/demo.sh' % d, cwd=W)
    for f, es in edits.items():
        p = W + '/' + f
        t = open(p).read()
        for o, n in es:
            assert t.count(o) == 1, (i, f, t.count(o), o)
            t = t.replace(o, n)
        open(p, 'w').write(t)
    open(d + '/patch.diff', 'w').write(sh('git diff -- . ":!*.pyc"', cwd=W).stdout)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r1 = sh('bash %s/demo.sh' % d, cwd=W)
    print(i, s['prop'], 'demo clean', r0.returncode, 'patched', r1.returncode, (r1.stdout + r1.stderr)[-200:].strip().replace('\n', ' | '))
    if r0.returncode:
        print('   CLEAN FAILS', (r0.stdout + r0.stderr)[-800:])
    c = sh('/opt/venv/bin/python -m props.%s quick' % s['prop'], cwd=root, env={'VERIF_REPO': W, 'VERIF_TIER': 'quick'})
    print('   check rc', c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l][-1:], c.stderr[-300:] if c.returncode not in (0, 1) else '')
    sh('git checkout -q -- .', cwd=W)
