"""Confirm a planted bug in a scratch copy of /repo and store it in seeded/<id>/.

usage: plant.py SPEC.py   (SPEC defines PROP, EDITS=[(file, old, new)], DEMO, NEEDS, WHAT)
       plant.py --check ID [CHECK...]   (run checks against a stored bug)
"""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def sh(cmd, cwd, env=None, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, text=True, capture_output=True, **kw)


def scratch(bid):
    d = '/tmp/plant_' + bid
    if os.path.exists(d): shutil.rmtree(d)
    subprocess.check_call(['cp', '-a', '/repo', d])
    subprocess.check_call(['git', '-C', d, 'checkout', '-q', '--', '.'])
    return d


def checks(d, pids):
    for p in pids:
        r = sh(['./check', p], V, dict(ENV, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'))
        lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        print('  check', p, 'exit', r.returncode, 'violations', len(lines), (lines or [r.stderr[-300:]])[0][:200])


def main():
    if sys.argv[1] == '--check':
        bid = sys.argv[2]
        d = scratch(bid)
        subprocess.check_call(['git', '-C', d, 'apply', V + '/seeded/%s/patch.diff' % bid])
        m = json.load(open(V + '/seeded/%s/meta.json' % bid))
        print(bid); checks(d, sys.argv[3:] or [m['property']])
        shutil.rmtree(d); return
    spec = sys.argv[1]
    S = runpy.run_path(spec)
    bid = os.path.basename(spec)[:-3]
    d = scratch(bid)
    base = subprocess.check_output(['git', '-C', d, 'blame', '-s', '-l', 'HEAD', '--', S['EDITS'][0][0]], text=True)
    for f, a, b in S['EDITS']:
        s = open(d + '/' + f).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(d + '/' + f, 'w').write(s.replace(a, b))
    diff = subprocess.check_output(['git', '-C', d, 'diff'], text=True)
    # removed or neighbouring lines must be of the original repository
    for f, a, b in S['EDITS']:
        cur = [l[2:] for l in ()]
    orig = {}
    bad = []
    f = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]; orig[f] = subprocess.run(['git', '-C', d, 'show', '76b1045:' + f], text=True, capture_output=True).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:] not in orig[f]: bad.append(l)
    if bad: print('NOT ORIGINAL LINES:', bad)
    dd = V + '/seeded/' + bid
    os.makedirs(dd, exist_ok=True)
    open(dd + '/patch.diff', 'w').write(diff)
    open(dd + '/demo.py', 'w').write(S['DEMO'])
    open(dd + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(dd + '/demo.sh', 0o755)
    json.dump({'property': S['PROP'], 'needs': S['NEEDS'], 'what_it_breaks': S['WHAT']}, open(dd + '/meta.json', 'w'), indent=1)
    r0 = sh([dd + '/demo.sh'], '/repo')
    r1 = sh([dd + '/demo.sh'], d, dict(ENV, PYTHONPATH=d))
    print(bid, 'demo unchanged', r0.returncode, r0.stderr[-300:], '| patched', r1.returncode, r1.stderr.strip()[-200:])
    t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'python_files=test*.py', 'tests'], d, dict(ENV, PYTHONPATH=d))
    print('  tests', t.stdout.strip().splitlines()[-1], [l for l in t.stdout.splitlines() if l.startswith('FAILED')][:5])
    checks(d, [S['PROP']] + sys.argv[2:])
    shutil.rmtree(d)
    ok = r0.returncode == 0 and r1.returncode != 0 and 'failed' not in t.stdout.strip().splitlines()[-1] and not bad
    print('  KEEP' if ok else '  REJECT')
    if not ok: shutil.rmtree(dd)


main()
