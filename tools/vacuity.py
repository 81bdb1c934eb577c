"""Shows that TLC rejects executions that differ from the recorded ones.

For each component, and each kind of event and field of an answer in it, some
recorded executions get this field of one such event changed.  Fails if no
change of some field is noticed."""
import copy
import json
import random
import sys

import check
import plans

# what the harness records of the answers (the rest are arguments)
ANSWERS = {'r', 'n', 'w', 'a', 'b', 'as', 'bs', 'before', 'after', 'args',
           'pos', 'terms', 'ig', 'ws', 'stored', 'items', 'words', 'wids',
           'r1', 'r2', 'cap', 'c', 'must'}
INPUTS = {('lag', 'n'), ('getwid', 'w'), ('getword', 'n'), ('isglob', 'w'),
          ('sort', 'c'), ('nbnew', 'n'), ('wenc', 'ws'), ('hold', 'r'),
          ('mutate', 'r'), ('thresh', 'n')}


def changed(v, rng):
    """A value like v which is not v."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1]) * (1 if abs(v) < 1000 else v // 10)
    if isinstance(v, str):
        return {'ok': 'conflict', 'conflict': 'ok'}.get(v, v + '?')
    if isinstance(v, dict):
        if v.get('k') == 'map' and not v['v']:
            return dict(v, v=[[0, 1]])
        if 'k' in v and 'v' in v:
            if v['k'] == 'ids' and v['v'] and rng.random() < .5:
                x = list(v['v'])
                x.pop(rng.randrange(len(x)))
                return dict(v, v=x)
            if v['k'] == 'exc':
                return dict(k='none', v=0)
            if v['k'] == 'none':
                return dict(k='exc', v='RuntimeError')
            return dict(v, v=changed(v['v'], rng))
        k = rng.choice(sorted(v))
        return dict(v, **{k: changed(v[k], rng)})
    if isinstance(v, list):
        if not v:
            return [0]
        i = rng.randrange(len(v))
        return v[:i] + [changed(v[i], rng)] + v[i + 1:]
    return 0


def main(comps):
    ch = check.Check('vacuity', 'quick', 3)
    rng = random.Random(5)
    bad = 0
    for comp in comps:
        focus = ['']
        if comp.startswith('txn'):
            focus = ['multi', 'solo']
        elif comp == 'util':
            focus = ['nbest', 'setops', 'wid', 'rice']
        elif comp in ('field', 'kwd', 'topic', 'text'):
            focus = ['', 'twin', 'hold', 'reject']
        elif comp == 'lex':
            focus = ['', 'analysis', 'glob', 'parser']
        traces = []
        for f in focus:
            its = plans.items(ch, 'vac' + comp + f, 24, f)
            traces += ch.drive(comp, its)
        places = {}
        for i, t in enumerate(traces):
            for j, e in enumerate(t['ev']):
                for k in e:
                    if k in ANSWERS and (e['op'], k) not in INPUTS and (
                            k != 'stored' or not e[k]):
                        places.setdefault((e['op'], k), []).append((i, j))
        new, what = [], {}
        for key, ps in sorted(places.items()):
            for i, j in rng.sample(ps, min(len(ps), 8)):
                t = copy.deepcopy(traces[i])
                t['id'] = len(new)
                e = t['ev'][j]
                e[key[1]] = changed(e[key[1]], rng)
                t['ev'] = t['ev'][:j + 1] + (
                    t['ev'][j + 1:] if comp.startswith('txn') else [])
                new.append(t)
                what[t['id']] = key
        rejected = {t['id'] for t, _, _ in ch.validate(comp, new)}
        for key in sorted(places):
            ids = [i for i in what if what[i] == key]
            n = len([i for i in ids if i in rejected])
            print('%-10s %-12s %-8s %d of %d changes rejected' % (
                (comp,) + key + (n, len(ids))))
            bad += n == 0
    print('%d fields without an effect' % bad)
    return bad


if __name__ == '__main__':
    comps = sys.argv[1:] or ['field', 'kwd', 'topic', 'lex', 'text', 'util'] + [
        'txn:' + c for c in plans.COMPS]
    sys.exit(1 if main(comps) else 0)
