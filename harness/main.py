"""Worker entry: main.py MODULE IN.json OUT.json, with VERIF_SRC set.

Puts the scratch build of the repository first on the path of the namespace
package zope and runs MODULE.main(payload)."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src = os.environ['VERIF_SRC']
sys.path.insert(0, src)
import zope  # noqa: E402

zope.__path__ = [os.path.join(src, 'zope')] + [
    p for p in zope.__path__ if not p.startswith('/repo/')]
import zope.index  # noqa: E402

assert zope.index.__file__.startswith(src + '/'), zope.index.__file__

mod = importlib.import_module(sys.argv[1])
with open(sys.argv[2]) as f:
    payload = json.load(f)
out = mod.main(payload)
with open(sys.argv[3], 'w') as f:
    json.dump(out, f)
sys.stdout.flush()
sys.stderr.flush()
os._exit(0)
