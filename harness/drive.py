"""Worker: executes scripts of one component.

payload: {"comp": name, "family": 32|64, "items": [...]} where an item is
{"id", "seed", "focus"} (a random script) or {"id", "cfg", "script"}.
Returns traces [{"id", "cfg", "ev"}]."""
import gc
import importlib
import os
import traceback

import common


def main(p):
    name, _, sub = p['comp'].partition(':')
    mod = importlib.import_module(name)
    sub = (sub,) if sub else ()
    out = []
    if int(os.environ.get('PURE_PYTHON', '0')):
        # The pure Python cache of persistent objects follows addresses of
        # objects which the garbage collector may just be freeing.
        gc.disable()
    for item in p['items']:
        if not gc.isenabled():
            gc.collect()
        if common.timeouts > 3:
            break       # enough to report
        try:
            if 'seed' in item:
                x = mod.gen(item['seed'], item.get('focus', ''), *sub)
            else:
                x = item
            if 'idkind' in item:
                x = dict(x, cfg=dict(x['cfg'], idkind=item['idkind']))
            fam = item.get('family', p.get('family', 32))
            out.append(dict(id=item['id'], cfg=x['cfg'], ev=mod.run(x, fam)))
        except Exception:
            # the other scripts may tell what is wrong
            out.append(dict(id=item['id'], error=traceback.format_exc()))
    return out
