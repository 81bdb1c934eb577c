"""Shared machinery of the checks: scratch build of /repo, TLC runs, workers."""
import atexit
import itertools
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class MachineryError(Exception):
    pass


class WorkerDied(Exception):
    """The worker process was killed by a signal (crash of the code)."""

    def __init__(self, msg, out):
        Exception.__init__(self, msg)
        self.out = out


class Env:
    """A scratch directory with a fresh build of /repo and the specs."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='zi-check-')
        atexit.register(shutil.rmtree, self.dir, True)
        self.spec = os.path.join(self.dir, 'spec')
        shutil.copytree(os.path.join(VERIF, 'spec'), self.spec)
        self.count = itertools.count(1)
        self.src = None

    def build(self):
        if self.src:
            return self.src
        root = os.path.join(self.dir, 'repo')
        os.mkdir(root)
        for name in os.listdir(REPO):
            if name in ('.git', 'build', 'docs'):
                continue
            p = os.path.join(REPO, name)
            if os.path.isdir(p):
                shutil.copytree(
                    p, os.path.join(root, name), symlinks=True,
                    ignore=shutil.ignore_patterns(
                        '__pycache__', 'okascore*.so', 'okascore*.pyd'))
            else:
                shutil.copy2(p, root)
        env = self.env()
        r = subprocess.run(
            [PY, '-W', 'ignore', 'setup.py', '-q', 'build_ext', '--inplace',
             '--force'], cwd=root, env=env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True, timeout=600)
        text = os.path.join(root, 'src/zope/index/text')
        if r.returncode or not [
                x for x in os.listdir(text) if re.match(r'okascore.*\.so', x)]:
            raise MachineryError('building /repo failed:\n' + r.stdout)
        self.src = os.path.join(root, 'src')
        return self.src

    def env(self, **kw):
        e = dict(os.environ)
        e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                 PYTHONPYCACHEPREFIX='/nonexistent', PURE_PYTHON='0',
                 LANG='C.UTF-8', HOME=self.dir)
        e.update(kw)
        return e

    def worker(self, module, payload, pure=False, timeout=600):
        """Run harness/<module>.py:main(payload) on the build; its result."""
        src = self.build()
        base = os.path.join(self.dir, 'w%d' % next(self.count))
        with open(base + '.in', 'w') as f:
            json.dump(payload, f)
        env = self.env(VERIF_SRC=src, PURE_PYTHON='1' if pure else '0')
        cmd = [PY, '-W', 'ignore', os.path.join(VERIF, 'harness', 'main.py'),
               module, base + '.in', base + '.out']
        with open(base + '.log', 'wb') as log:
            p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdout=log,
                                 stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
        if rc == 'timeout' or (rc < 0):
            raise WorkerDied('worker %s ended with %s\n%s' % (
                module, rc, open(base + '.log', errors='replace').read()[-2000:]),
                payload)
        if rc:
            raise MachineryError('worker %s failed (%s):\n%s' % (
                module, rc, open(base + '.log', errors='replace').read()[-6000:]))
        with open(base + '.out') as f:
            out = json.load(f)
        os.unlink(base + '.out')
        return out

    def tlc(self, module, cfg=None, env=None, workers=4, timeout=600,
            args=(), heap='4g'):
        """Run TLC on spec/<module>.tla; returns a TLCResult."""
        n = next(self.count)
        if cfg is not None:
            cfgname = '%s_%d.cfg' % (module, n)
            with open(os.path.join(self.spec, cfgname), 'w') as f:
                f.write(cfg)
        else:
            cfgname = module + '.cfg'
        meta = os.path.join(self.dir, 'meta%d' % n)
        out = os.path.join(self.dir, 'tlc%d.out' % n)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m',
               '-XX:ParallelGCThreads=4', '-Djava.io.tmpdir=' + self.dir,
               '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-deadlock',
               '-workers', str(workers), '-metadir', meta,
               '-config', cfgname] + list(args) + [module]
        e = self.env(**{k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        with open(out, 'wb') as f:
            p = subprocess.Popen(cmd, cwd=self.spec, env=e, stdout=f,
                                 stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
        shutil.rmtree(meta, True)
        return TLCResult(module, rc, out, time.time() - t)


class TLCResult:
    def __init__(self, module, rc, path, wall):
        self.module, self.rc, self.wall, self.path = module, rc, wall, path
        self.states = self.distinct = 0
        self.msgs = {}      # tag -> list of decoded payloads
        other = []
        with open(path, errors='replace') as f:
            for line in f:
                if line.startswith('"@@'):
                    s = json.loads(line)
                    tag, _, rest = s[2:].partition(' ')
                    self.msgs.setdefault(tag, []).append(rest)
                else:
                    other.append(line)
        self.text = ''.join(other)
        for m in re.finditer(
                r'(\d+) states generated.*?(\d+) distinct states', self.text):
            self.states, self.distinct = int(m.group(1)), int(m.group(2))
        if not self.states:
            m = re.search(r'The number of states generated: (\d+)', self.text)
            if m:
                self.states = self.distinct = int(m.group(1))

    def require_ok(self):
        if self.rc != 0:
            raise MachineryError('TLC on %s: exit %s\n%s' % (
                self.module, self.rc, self.text[-2500:]))
        return self

    def get(self, tag):
        return [json.loads(x) for x in self.msgs.get(tag, [])]
