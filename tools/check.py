#!/usr/bin/env python3
"""check.py ID [quick|thorough]   run the check of one property
check.py --replay FILE           run the case of a VIOLATION again
check.py --list                  the properties that have a check
"""
import json
import os
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'harness'))
import vlib  # noqa: E402
from vlib import Env, MachineryError, VERIF, WorkerDied  # noqa: E402


class Component:
    """How the traces of one component are validated."""

    def __init__(self, name, module, init, step, extra=''):
        self.name, self.module = name, module
        self.cfg = ('CONSTANTS\n TInit <- %s\n TStep <- %s\n%s'
                    'SPECIFICATION TraceSpec\n' % (init, step, extra))


COMPONENTS = {}


def component(*a, **k):
    c = Component(*a, **k)
    COMPONENTS[c.name] = c


component('field', 'FieldTrace', 'FTInit', 'FTStep')
component('kwd', 'KeywordTrace', 'KTInit', 'KTStep')
component('topic', 'TopicTrace', 'TTInit', 'TTStep')
component('lex', 'LexTrace', 'LTInit', 'LTStep')
component('text', 'TextTrace', 'XTInit', 'XTStep')
component('util', 'UtilTrace', 'UTInit', 'UTStep')
TXN = 'TxInit TxStep'.split()
for _n, _m, _p, _u in (
        ('field', 'FieldTxn', 'F', 1), ('kwd', 'KeywordTxn', 'K', 1),
        ('topic', 'TopicTxn', 'T', 1), ('text', 'TextTxn', 'X', 9999),
        ('lex', 'LexTxn', 'L', 9999)):
    component('txn:' + _n, _m, *TXN, extra=(
        ' CInit <- %sTInit\n CStep <- %sTStep\n CMerge <- %sMerge\n'
        ' CDocs <- %sDocs2\n CUse = %d\n' % (_p, _p, _p, _p, _u)))
component('variant', 'VariantTrace', 'VTInit', 'VTStep')


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.env = Env()
        self.states = self.transitions = 0
        self.traces = self.events = self.walked = 0
        self.samples, self.violations, self.notes = [], [], []
        self.models = []
        self.assumptions = []
        self.errors = []    # of scripts that could not be executed
        self.pool = ThreadPoolExecutor(8)
        self.nrep = 0
        self.lock = threading.Lock()

    quick = property(lambda self: self.tier == 'quick')

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- model checking -----------------------------------------------------
    def mc(self, module, consts, invariants=(), props=(), spec='Spec',
           extra='', emit=False, view=None, workers=4, timeout=800,
           simulate=None, action_constraint=None, constraint=None,
           subst=None):
        cfg = 'CONSTANTS\n' + ''.join(
            ' %s = %s\n' % kv for kv in consts.items()) if consts else ''
        for kv in (subst or {}).items():
            cfg += 'CONSTANT %s <- %s\n' % kv
        cfg += 'SPECIFICATION %s\n' % spec
        if view:
            cfg += 'VIEW %s\n' % view
        if invariants:
            cfg += 'INVARIANTS ' + ' '.join(invariants) + '\n'
        if props:
            cfg += 'PROPERTIES ' + ' '.join(props) + '\n'
        if action_constraint:
            cfg += 'ACTION_CONSTRAINT %s\n' % action_constraint
        if constraint:
            cfg += 'CONSTRAINT %s\n' % constraint
        args = []
        if simulate:
            args = ['-simulate', 'num=%d' % simulate[0], '-depth',
                    str(simulate[1]), '-seed', str(self.seed)]
        r = self.env.tlc(module, cfg + extra, workers=workers,
                         timeout=timeout, args=args)
        r.require_ok()
        with self.lock:
            self.states += r.distinct
            self.transitions += r.states
        self.models.append(dict(
            module=module, constants=consts, distinct_states=r.distinct,
            states_generated=r.states, wall_s=round(r.wall, 1),
            invariants=list(invariants) + list(props)))
        return r

    # -- executions of the real code ----------------------------------------
    def drive(self, comp, items, timeout=700):
        """Run items (dicts with family/pure set) in parallel workers."""
        groups = {}
        for it in items:
            groups.setdefault(bool(it.get('pure')), []).append(it)
        jobs = []
        self.env.build()
        for pure, its in groups.items():
            k = max(1, min(6, len(its) // 8))
            for j in range(k):
                jobs.append((pure, its[j::k]))

        def go(job, again=False):
            pure, its = job
            try:
                return self.env.worker('drive', dict(comp=comp, items=its),
                                       pure=pure, timeout=timeout)
            except WorkerDied as e:
                if 'timeout' in str(e).split('\n')[0]:
                    raise MachineryError(str(e))
                if pure and len(its) > 1:
                    # Without C code of the repository: once more, one by
                    # one, it may have been the interpreter.
                    return sum((go((pure, [it])) for it in its), [])
                if pure and not again:
                    return go(job, True)
                self.violation(comp, 'crash', dict(
                    error=str(e), comp=comp, items=its))
                return []
        out = []
        for r in self.pool.map(go, jobs):
            out.extend(r)
        self.errors += [t['error'] for t in out if 'error' in t]
        return [t for t in out if 'error' not in t]

    def validate(self, comp, traces, timeout=800, chunks=2):
        """TLC validation of traces; list of (trace, event number, clause)."""
        c = COMPONENTS[comp]
        traces = [t for t in traces if t['ev']]
        if not traces:
            return []
        size = sum(len(t['ev']) for t in traces)
        k = max(1, min(chunks, len(traces) // 4))
        traces = sorted(traces, key=lambda t: -len(t['ev']))

        def go(j):
            part = traces[j::k]
            path = os.path.join(self.env.dir, 'traces_%s_%d_%d.json' % (
                comp, j, time.time_ns()))
            with open(path, 'w') as f:
                json.dump(part, f)
            r = self.env.tlc(c.module, c.cfg, env=dict(TRACES=path),
                             workers=max(2, 8 // k), timeout=timeout)
            os.unlink(path)
            return part, r.require_ok()
        bads = []
        for part, r in self.pool.map(go, range(k)):
            done = set(r.get('DONE'))
            want = {t['id'] for t in part}
            if done != want:
                raise MachineryError('no verdict on traces %s of %s\n%s' % (
                    sorted(want - done)[:5], comp, r.text[-2000:]))
            byid = {t['id']: t for t in part}
            for b in r.get('BAD'):
                for clause in sorted(b['bad']):
                    bads.append((byid[b['id']], b['l'], clause))
            for x in r.get('X'):
                byid[x['id']].setdefault('x', []).append(x)
            with self.lock:
                self.states += r.distinct
                self.transitions += r.states
        self.traces += len(traces)
        self.events += size
        return bads

    # -- verdicts -----------------------------------------------------------
    def violation(self, comp, clause, data):
        self.nrep += 1
        d = os.path.join(VERIF, 'out')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, self.nrep))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, component=comp, clause=clause,
                           tier=self.tier, seed=self.seed, **data), f,
                      indent=1)
        self.violations.append((comp, clause, path))

    def report(self, comp, bads, wanted, items):
        """Turn the bad events with wanted clauses into violations."""
        byid = {it['id']: it for it in items}
        seen = {}
        for t, l_, clause in sorted(bads, key=lambda b: b[1]):
            if not wanted(clause, t, l_):
                continue
            n = seen[clause] = seen.get(clause, 0) + 1
            if n > 2:
                continue
            self.violation(comp, clause, dict(
                item=byid.get(t['id']), cfg=t['cfg'], event=l_,
                failing=t['ev'][l_ - 1],
                trace=t['ev'][max(0, l_ - 40):l_]))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def sample_trace(self, t, n=6):
        self.sample(dict(trace=t['id'], cfg=t['cfg'], events=len(t['ev']),
                         first_events=t['ev'][:n]))

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   trace_events=self.events,
                   spec_transitions_replayed=self.walked,
                   models=self.models, notes=self.notes,
                   samples=self.samples)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level='model_checking', coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for comp, clause, path in self.violations[:5]:
            print('%s: clause %s' % (comp, clause))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        if not self.violations:
            print('%s held: %d spec states, %d transitions, %d traces with '
                  '%d events validated, %.0f s' % (
                      self.prop, self.states, self.transitions, self.traces,
                      self.events, time.time() - self.t0))
        return 1 if self.violations else 0


def main(argv):
    import plans
    if argv[:1] == ['--list']:
        print(' '.join(sorted(plans.PLANS)))
        return 0
    if argv[:1] == ['--replay']:
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ch = Check(prop, tier, seed)
    try:
        plans.PLANS[prop](ch)
        if ch.errors and not ch.violations:
            raise MachineryError('a script failed:\n' + ch.errors[0])
        return ch.finish()
    except MachineryError as e:
        if ch.violations:
            sys.stderr.write('machinery: %s\n' % e)
            return ch.finish()
        print('ERROR in the check of %s: %s' % (prop, e))
        return 2


def replay(path):
    with open(path) as f:
        d = json.load(f)
    ch = Check(d['property'], d['tier'], d['seed'])
    if d.get('item') is None:
        print('replay file holds the complete case:')
        print(json.dumps(d, indent=1)[:4000])
        return 1
    item = d['item']
    traces = ch.drive(d['component'], [item])
    bads = ch.validate(d['component'], traces)
    for t, l_, clause in bads[:20]:
        print(l_, clause, json.dumps(t['ev'][l_ - 1]))
    return 1 if bads or ch.violations else 0


if __name__ == '__main__':
    # make "import check" in plans refer to this module
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main(sys.argv[1:]))
