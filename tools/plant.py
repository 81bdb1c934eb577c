#!/usr/bin/env python3
"""Planted bugs (seeded/<id>): making, confirming and running checks on them.

plant.py confirm ID...     tests pass and demo fails with the patch
plant.py check [-p] ID...  is it caught by the check of its property
                           (-p C01,C02: by other checks)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')


def mk(name, prop, edits, needs, breaks, demo):
    """edits: [(file below src/zope/index, old, new)]"""
    d = os.path.join(SEEDED, name)
    w = tempfile.mkdtemp(prefix='plant-')
    try:
        shutil.copytree('/repo/src', w + '/src')
        subprocess.run('git init -q . && git add -A && git -c user.name=x '
                       '-c user.email=x commit -qm x', shell=True, cwd=w,
                       check=True, stdout=subprocess.DEVNULL)
        for f, old, new in edits:
            p = os.path.join(w, 'src/zope/index', f)
            s = open(p).read()
            if s.count(old) != 1:
                print('%s: %d matches in %s: %r' % (
                    name, s.count(old), f, old[:60]))
                return
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=w, check=True,
                              stdout=subprocess.PIPE, text=True).stdout
    finally:
        shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(
        '#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(demo.strip('\n') + '\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + '/meta.json', 'w'), indent=1)


def scratch(name, patch=True):
    w = tempfile.mkdtemp(prefix='plant-%s-' % name)
    shutil.rmtree(w)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    if patch:
        subprocess.run(['git', 'apply', SEEDED + '/%s/patch.diff' % name],
                       cwd=w, check=True)
    return w


def original(name):
    """does the patch change a line of the original repository"""
    import re
    f = None
    for line in open(SEEDED + '/%s/patch.diff' % name):
        if line.startswith('--- '):
            f = line[6:].strip()
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f],
                               stdout=subprocess.PIPE, text=True).stdout
            b = b.split('\n')
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1)) - 1
        elif line.startswith('-'):
            if b[n].startswith('^7ef9ea') and line[1:].strip():
                return True
            n += 1
        elif line.startswith(' '):
            n += 1
    return False


def confirm(name):
    w = scratch(name)
    t = tempfile.mkdtemp(prefix='plantd-')
    try:
        shutil.copytree(os.path.join(SEEDED, name), t + '/d')
        for f in ('patch.diff', 'meta.json'):
            os.unlink(t + '/d/' + f)
        script = ('mount --bind %s /repo && cd /repo && '
                  'bash /opt/vp/build.sh || exit 1; '
                  'timeout 300 sh %s/d/demo.sh > %s/demo.log 2>&1; '
                  'echo $? > %s/demo; '
                  'bash /opt/vp/test.sh %s/o.json' % (w, t, t, t, t))
        r = subprocess.run(['unshare', '-Urm', 'sh', '-c', script],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        if not os.path.exists(t + '/o.json'):
            return name, 'BUILD ' + r.stdout[-500:]
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        ok = set(json.load(open(t + '/o.json'))['passed'])
        demo = open(t + '/demo').read().strip()
        clean = subprocess.run(['sh', t + '/d/demo.sh'], cwd='/repo',
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
        bad = []
        if not original(name):
            bad.append('NO ORIGINAL LINE changed')
        if base - ok:
            bad.append('TESTS %d %s' % (len(base - ok), sorted(base - ok)[:2]))
        if demo == '0':
            bad.append('DEMO passes with the patch')
        if clean.returncode:
            bad.append('DEMO fails on the clean tree: ' + clean.stdout[-300:])
        log = open(t + '/demo.log').read().strip().split('\n')[-1][:100]
        return name, '; '.join(bad) or 'ok   (%s)' % log
    finally:
        shutil.rmtree(w, True)
        shutil.rmtree(t, True)


def check(name, props):
    w = scratch(name)
    out = []
    try:
        for p in props or [json.load(open(
                SEEDED + '/%s/meta.json' % name))['property']]:
            r = subprocess.run(
                [sys.executable, VERIF + '/tools/check.py', p, 'quick'],
                env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True, cwd=VERIF)
            cl = sorted({x.split('clause ')[1] for x in r.stdout.split('\n')
                         if ': clause ' in x})
            out.append('%s %s %s' % (p, {0: 'MISSED', 1: 'caught'}.get(
                r.returncode, 'ERROR ' + r.stdout[-400:]), ' '.join(cl)))
    finally:
        shutil.rmtree(w, True)
    return name, '; '.join(out)


if __name__ == '__main__':
    cmd, names = sys.argv[1], sys.argv[2:]
    props = None
    if names[:1] == ['-p']:
        props, names = names[1].split(','), names[2:]
    names = names or sorted(os.listdir(SEEDED))
    if cmd == 'confirm':
        with ThreadPoolExecutor(3) as ex:
            for n, r in ex.map(confirm, names):
                print(n, r, flush=True)
    else:
        with ThreadPoolExecutor(2) as ex:
            for n, r in ex.map(lambda n: check(n, props), names):
                print(n, r, flush=True)
