#!/usr/bin/env python3
"""Planted bugs: seed.py make FILE (a python file defining BUGS) | verify [ID...] [--check]

make writes seeded/<id>/ from edits; verify confirms in a scratch copy of the repository that the
patch applies, the tests pass, the demonstration tells the two apart, and (--check) whether the
check of its property catches it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PKG = 'sciencebeam_trainer_grobid_tools/'
DEMO = '''#!/bin/bash
# exit 0: behaves as described; nonzero: broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def copy_repo():
    tmp = tempfile.mkdtemp(prefix='seed-')
    path = os.path.join(tmp, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', path])
    return tmp, path


def make(path):
    scope = {}
    with open(path) as f:
        exec(f.read(), scope)   # pylint: disable=exec-used
    for bug in scope['BUGS']:
        tmp, repo = copy_repo()
        try:
            for name, old, new in bug['edits']:
                p = os.path.join(repo, PKG, name)
                with open(p) as f:
                    text = f.read()
                assert text.count(old) == 1, (bug['id'], name, text.count(old), old)
                with open(p, 'w') as f:
                    f.write(text.replace(old, new))
            diff = subprocess.check_output(['git', '-C', repo, 'diff', '--no-color'], text=True)
        finally:
            shutil.rmtree(tmp)
        out = os.path.join(SEEDED, bug['id'])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write(textwrap.dedent(bug['demo']).lstrip())
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
        print('wrote', bug['id'])


def verify(bug, check):
    folder = os.path.join(SEEDED, bug)
    tmp, repo = copy_repo()
    res = {}
    try:
        meta = json.load(open(os.path.join(folder, 'meta.json')))
        demo = ['bash', os.path.join(folder, 'demo.sh')]
        res['demo-clean'] = subprocess.run(demo, cwd=repo, capture_output=True).returncode == 0
        res['applies'] = subprocess.run(
            ['git', '-C', repo, 'apply', os.path.join(folder, 'patch.diff')]).returncode == 0
        p = subprocess.run(demo, cwd=repo, capture_output=True, text=True)
        res['demo-fails'] = p.returncode != 0
        res['demo-says'] = (p.stdout + p.stderr).strip()[-200:]
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        p = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'],
            cwd=repo, env=env, capture_output=True, text=True)
        res['tests'] = p.returncode == 0
        if not res['tests']:
            res['tests-say'] = p.stdout[-800:]
        if check:
            env = dict(os.environ, VERIF_REPO=repo)
            for pid in [meta['property']]:
                p = subprocess.run(
                    ['/opt/venv/bin/python', os.path.join(VERIF, 'check.py'), pid], env=env,
                    capture_output=True, text=True)
                res['caught'] = p.returncode == 1 and 'VIOLATION property=%s' % pid in p.stdout
                res['check-says'] = ' | '.join(
                    x.strip() for x in p.stdout.splitlines() if 'failing' in x)[:300] or p.stdout[-300:] + p.stderr[-300:]
    finally:
        shutil.rmtree(tmp)
    ok = res['demo-clean'] and res['applies'] and res['demo-fails'] and res['tests']
    print('%-28s %s %s caught=%s' % (bug, meta['property'], 'counts' if ok else 'DOES NOT COUNT',
                                     res.get('caught')))
    if not ok or (check and not res.get('caught')):
        print('   ', json.dumps(res)[:1500])
    else:
        print('    ', res['demo-says'].splitlines()[-1:], res.get('check-says', ''))
    sys.stdout.flush()
    return ok


if __name__ == '__main__':
    args = [a for a in sys.argv[2:] if a != '--check']
    if sys.argv[1] == 'make':
        make(args[0])
    else:
        for b in args or sorted(os.listdir(SEEDED)):
            verify(b, '--check' in sys.argv)
