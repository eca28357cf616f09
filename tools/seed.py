#!/usr/bin/env python3
"""Builds and confirms the planted bugs in /verif/seeded from tools/seeds.py. No check uses this.

seed.py build [ID...]    write seeded/<id>/ and confirm it in a scratch copy: the tests pass, the demo tells the trees apart
seed.py check [ID...]    run the check of the property against each (in a scratch copy, through DFIR_REPO)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import seeds

BASE = 'a8df8aa'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def copy():
    d = tempfile.mkdtemp(prefix = 'seed.', dir = '/tmp')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d


def demo(folder, repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE = '1')
    p = subprocess.run(['bash', folder + '/demo.sh'], cwd = repo, env = env, capture_output = True, text = True, timeout = 300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def tests(repo):
    p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--timeout=300', 'test_cases.py'],
                       cwd = repo, env = dict(os.environ, PYTHONDONTWRITEBYTECODE = '1', PYTHONHASHSEED = '0', TZ = 'UTC'), capture_output = True, text = True)
    return '84 passed' in p.stdout and '11 failed' in p.stdout, p.stdout[-800:]


def original(id, diff):
    """The lines taken away have to be lines of the original repository."""
    name = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            name = l[6:]
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
            base = subprocess.check_output(['git', '-C', '/repo', 'show', BASE + ':' + name], text = True).splitlines()
            if l[1:] not in base:
                print(id, 'NOT AN ORIGINAL LINE:', l)


def write(s):
    folder = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(folder, exist_ok = True)
    d = copy()
    try:
        for edit in s['edits']:
            f, old, new = edit[:3]
            path = d + '/repo/' + f
            text = open(path).read()
            n = text.count(old)
            if len(edit) > 3:           # Which of several matches.
                parts = text.split(old)
                k = edit[3]
                text = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            elif n != 1:
                raise SystemExit('{}: {} matches in {} of {!r}'.format(s['id'], n, f, old))
            else:
                text = text.replace(old, new)
            open(path, 'w').write(text)
        diff = subprocess.check_output(['git', '-C', d + '/repo', 'diff'], text = True)
        open(folder + '/patch.diff', 'w').write(diff)
        open(folder + '/demo.py', 'w').write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))\n" + s['demo'])
        open(folder + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        original(s['id'], diff)
        for extra in s.get('files', ['ntfs.py']):
            text = open(os.path.join(ROOT, 'mc', extra)).read()
            open(os.path.join(folder, extra), 'w').write(text.replace('from . import', 'import').replace('from .image import', 'from image import'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(folder + '/meta.json', 'w'), indent = 1)
        good = demo(folder, '/repo')
        bad = demo(folder, d + '/repo')
        ok, out = tests(d + '/repo') if '--notests' not in sys.argv else (True, '')
        print(s['id'], 'demo base', good[0], 'demo bug', bad[0], 'tests', ok, flush = True)
        if good[0] != 0:
            print(good[1])
        if bad[0] == 0:
            print('   DEMO DOES NOT SEE IT')
        else:
            print('   ', bad[1].strip().splitlines()[-1][:200])
        if not ok:
            print(out)
    finally:
        shutil.rmtree(d)


def check(s, tier = []):
    d = copy()
    try:
        subprocess.check_call(['git', '-C', d + '/repo', 'apply', os.path.join(ROOT, 'seeded', s['id'], 'patch.diff')])
        p = subprocess.run(['./check', s['property']] + tier, cwd = ROOT, env = dict(os.environ, DFIR_REPO = d + '/repo'), capture_output = True, text = True)
        hit = 'VIOLATION property={}'.format(s['property']) in p.stdout
        print(s['id'], s['property'], 'CAUGHT' if hit and p.returncode == 1 else 'MISSED rc={}'.format(p.returncode), flush = True)
        if hit:
            lines = [l for l in p.stdout.splitlines() if l.strip()]
            print('    ', ' | '.join(lines[:3])[:300])
    finally:
        shutil.rmtree(d)


def main():
    cmd = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    for s in seeds.SEEDS:
        if ids and s['id'] not in ids:
            continue
        (write if cmd == 'build' else check)(s)


main()
