"""Builds /verif/seeded/<id>/ from a bug description and confirms it in a scratch copy of /repo.

usage: plant.py BUGS.py [id ...]      BUGS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
A bug is kept only if the build and the stable tests pass with it and its demo passes without and fails with it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env)
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)


def plant(bug):
    tmp = tempfile.mkdtemp(prefix='plant.')
    repo = os.path.join(tmp, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        sh('git checkout -q -- .', repo)
        out = os.path.join(SEEDED, bug['id'])
        work = os.path.join(tmp, 'demo')
        os.makedirs(work)
        with open(os.path.join(work, 'demo.py'), 'w') as f:
            f.write(bug['demo'].lstrip('\n'))
        with open(os.path.join(work, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n# run in the repository: exit 0 if the property holds for this case\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                    'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec timeout 120 python3 "$here/demo.py"\n')
        r = sh(f'bash {work}/demo.sh', repo)
        if r.returncode != 0:
            return f'demo fails on the unchanged tree: {r.stdout.decode()[-300:]}'
        for file, old, new in bug['edits']:
            p = os.path.join(repo, file)
            s = open(p).read()
            if s.count(old) != 1:
                return f'{file}: {s.count(old)} occurrences of {old!r}'
            open(p, 'w').write(s.replace(old, new))
        r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests', repo, PYTHONPATH=repo + '/src', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX=tmp + '/pyc')
        if r.returncode != 0:
            return f'tests fail: {r.stdout.decode()[-400:]}'
        r = sh(f'bash {work}/demo.sh', repo)
        if r.returncode == 0:
            return 'demo passes with the bug'
        msg = r.stdout.decode().strip().splitlines()[-1:]
        diff = sh('git diff', repo).stdout
        if os.path.exists(out):
            shutil.rmtree(out)
        os.makedirs(out)
        with open(os.path.join(out, 'patch.diff'), 'wb') as f:
            f.write(diff)
        for n in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(work, n), out)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']), f, indent=1)
        return f'kept ({" ".join(msg)[:100]})'
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if len(sys.argv) < 3 or b['id'] in sys.argv[2:]:
            print(b['id'], b['property'], plant(b), flush=True)
