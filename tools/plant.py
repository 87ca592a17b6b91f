"""Verifies and stores planted bugs: plant.py SPEC.py [ID...].

SPEC.py defines BUGS = {id: dict(property, file, old, new, needs, breaks,
demo)} (or edits=[(file, old, new), ...]).  Each one is applied in a scratch
worktree of /repo's HEAD; kept (in /verif/seeded) only if the tests pass and
the demo passes without and fails with it.  The property's check is then run
against the patched tree.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                          text=True, env=dict(ENV, **kw))


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    for bid, b in bugs.items():
        if only and bid not in only:
            continue
        wt = '/tmp/plant_' + bid
        sh('git worktree remove --force %s; git worktree prune; '
           'git worktree add -q --detach %s HEAD' % (wt, wt), '/repo')
        try:
            print(bid, one(bid, b, wt), flush=True)
        finally:
            sh('git worktree remove --force %s; git worktree prune' % wt,
               '/repo')


def one(bid, b, wt):
    tmp = wt + '_demo'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    with open(tmp + '/demo.py', 'w') as f:
        f.write(b['demo'].lstrip('\n'))
    with open(tmp + '/demo.sh', 'w') as f:
        f.write(DEMO)
    os.chmod(tmp + '/demo.sh', 0o755)
    r = sh('bash %s/demo.sh' % tmp, wt)
    if r.returncode:
        return 'REJECTED: demo fails on the unchanged tree\n' + r.stderr[-800:]
    for path, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
        path = os.path.join(wt, 'forecaster', path)
        s = open(path).read()
        if s.count(old) != 1:
            return 'REJECTED: %d matches for %r' % (s.count(old), old)
        open(path, 'w').write(s.replace(old, new))
    r = sh(PY + ' -m pytest -q -p no:cacheprovider tests', wt)
    if r.returncode:
        return 'REJECTED: tests fail\n' + '\n'.join(
            l for l in r.stdout.splitlines() if l.startswith('FAILED'))[:800]
    r = sh('bash %s/demo.sh' % tmp, wt)
    if r.returncode == 0:
        return 'REJECTED: demo passes with the change'
    why = (r.stderr.strip() or r.stdout.strip()).splitlines()[-1:]
    diff = sh('git diff', wt).stdout
    root = sh('git rev-list --max-parents=0 HEAD', wt).stdout.strip()
    path, new = None, []
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
            orig = sh('git show %s:%s' % (root, path), wt).stdout.splitlines()
        elif line.startswith('-') and line[1:].strip() and \
                line[1:] not in orig:
            new.append(line)
    note = ' (NOT ORIGINAL: %s)' % new if new else ''
    out = os.path.join(VERIF, 'seeded', bid)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    shutil.rmtree(tmp, ignore_errors=True)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'],
               'what_it_breaks': b['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    r = sh('python3-vt check.py %s' % b['property'], VERIF, VERIF_REPO=wt)
    lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    return 'kept%s (%s); %s rc=%d %s' % (
        note, ' '.join(why)[:120], 'CAUGHT' if lines and r.returncode == 1
        else 'MISSED', r.returncode, lines[:1] or r.stdout[-300:])


main()
