"""Driver of indexes in an object database, used by several sessions.

A script is a list of [session, operation ...]; operations of the index
number i are [session, 'ix', i, operation ...] with the operations of the
driver of its kind."""
import os
import random
import shutil
import tempfile

import field
import kwd
import lex
import text
import topic
from common import ID_KINDS, Stop

KINDS = dict(field=field, kwd=kwd, topic=topic, text=text,
             lex=lex)


class VoteFailed(Exception):
    pass


class Failing:
    """A data manager that refuses the second phase of a commit."""

    def __init__(self, tm, key):
        self.transaction_manager = tm
        self.key = key

    def sortKey(self):
        return self.key

    def abort(self, t):
        pass

    tpc_begin = commit = tpc_finish = tpc_abort = abort

    def tpc_vote(self, t):
        raise VoteFailed

    def savepoint(self):
        class S:
            def rollback(self):
                pass
        return S()


class Run:
    def __init__(self, cfg, family):
        self.cfg = cfg
        self.family = family
        self.mod = KINDS[cfg['comp']]
        self.ev = []
        self.dir = None
        self.db = None
        self.conns = {}
        self.tms = {}
        self.sps = {}
        self.execs = {}
        self.active = set()
        self.open()
        self.create()

    def storage(self):
        from ZODB.DemoStorage import DemoStorage
        from ZODB.FileStorage import FileStorage
        if self.cfg['storage'] == 'file':
            if self.dir is None:
                self.dir = tempfile.mkdtemp(prefix='zi-txn-')
            return FileStorage(os.path.join(self.dir, 'Data.fs'))
        return DemoStorage()

    def open(self):
        from ZODB.DB import DB
        self.db = DB(self.storage(), cache_size=self.cfg['cache'])

    def close(self):
        try:
            for s, c in self.conns.items():
                self.tms[s].abort()
                c.close()
            self.db.close()
        except BaseException:
            pass
        if self.dir:
            shutil.rmtree(self.dir, True)

    def connection(self, s):
        import transaction
        if s not in self.conns:
            self.tms[s] = transaction.TransactionManager()
            self.conns[s] = self.db.open(self.tms[s])
        return self.conns[s]

    def new_exec(self):
        return self.mod.Exec(self.cfg, self.family)

    def create(self):
        conn = self.connection('setup')
        root = conn.root()
        n = self.cfg['n']
        if self.cfg['comp'] == 'text':
            x = self.new_exec()
            self.root0 = x.ti
            root['ix0'] = x.ti
            for i in range(1, n):
                root['ix%d' % i] = x.new(x.ti.lexicon)
        else:
            for i in range(n):
                root['ix%d' % i] = self.new_exec().ix
        self.tms['setup'].commit()
        conn.close()
        del self.conns['setup']

    def attach(self, s, i):
        """The executor of session s on its copy of the index i."""
        k = (s, i)
        if k not in self.execs:
            self.execs[k] = self.new_exec()
        x = self.execs[k]
        o = self.connection(s).root()['ix%d' % i]
        if self.cfg['comp'] == 'text':
            x.ti, x.ix = o, o.index
        else:
            x.ix = o
        return x

    def emit(self, s, op, **kw):
        self.ev.append(dict(op=op, s=s, **kw))

    def guard(self, f):
        try:
            f()
            return 'ok'
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            return type(e).__name__

    # operations
    def op_begin(self, s):
        if s not in self.active:
            self.connection(s)
            self.tms[s].begin()
            self.active.add(s)
            self.sps[s] = {}
            self.emit(s, 'begin')

    def finish(self, s):
        self.tms[s].abort()
        self.active.discard(s)

    def op_commit(self, s):
        from ZODB.POSException import ConflictError
        if s not in self.active:
            return
        last = self.db.lastTransaction()
        try:
            self.tms[s].commit()
            r = 'ok'
        except ConflictError:
            r = 'conflict'
        except Exception as e:
            r = type(e).__name__
        self.finish(s)
        self.emit(s, 'commit', r=r,
                  stored=self.db.lastTransaction() != last)

    def op_commitfail(self, s, key):
        if s not in self.active:
            return
        t = self.tms[s].get()
        t.join(Failing(self.tms[s], key))
        try:
            t.commit()
            self.emit(s, 'commit', r='missing failure', stored=True)
        except Exception:
            self.emit(s, 'commitfail')
        self.finish(s)

    def op_abort(self, s):
        if s in self.active:
            self.finish(s)
            self.emit(s, 'abort')

    def op_savepoint(self, s, k):
        if s in self.active:
            self.sps[s][k] = self.tms[s].savepoint()
            self.emit(s, 'savepoint', k=k)

    def op_rollback(self, s, k):
        if s in self.active and k in self.sps[s]:
            r = self.guard(self.sps[s][k].rollback)
            for x in list(self.sps[s]):
                if x > k:
                    del self.sps[s][x]
            self.emit(s, 'rollback', k=k, r=r)

    def op_evict(self, s):
        if s in self.active:
            self.emit(s, 'evict', r=self.guard(self.conns[s].cacheMinimize))

    def op_gc(self, s):
        if s in self.active:
            self.emit(s, 'gc', r=self.guard(self.conns[s].cacheGC))

    def op_reconnect(self, s):
        if s not in self.active and s in self.conns:
            def f():
                self.conns.pop(s).close()
            self.emit(s, 'reconnect', r=self.guard(f))

    def op_restart(self, s, pack=False):
        """A new process: everything is read from the storage again."""
        if self.active:
            return

        def f():
            for c in self.conns.values():
                c.close()
            self.conns.clear()
            if self.cfg['storage'] == 'file':
                if pack:
                    self.db.pack()
                self.db.close()
                self.open()
            else:
                self.db.cacheMinimize()
        self.emit(s, 'restart', r=self.guard(f))

    def op_lexicon(self, s):
        """The numbers of the words are a bijection, and counted."""
        if s not in self.active:
            return
        lx = self.connection(s).root()['ix0']
        if self.cfg['comp'] == 'text':
            lx = lx.lexicon
            lx = getattr(lx, 'lex', lx)

        def f():
            items = list(lx.items())
            assert len({w for _, w in items}) == len(items)
            assert sorted(lx.wids()) == sorted(w for _, w in items)
            assert all(lx.get_word(w) == t and lx.get_wid(t) == w
                       for t, w in items)
            assert 0 not in lx.wids()
        self.emit(s, 'lexicon', r=self.guard(f))

    def op_pickle(self, s, i):
        """A copy of the index answers alike."""
        import copy
        if s not in self.active:
            return
        x = self.attach(s, i)
        ix = x.ti if self.cfg['comp'] == 'text' else x.ix
        x.ev = []
        a = x.obs(ix)
        b = x.obs(copy.deepcopy(ix))
        sa, sb = [], []
        if self.cfg['comp'] == 'text':
            (a, sa), (b, sb) = a, b
        from common import canon
        self.emit(s, 'twin', i=i, kind='pickle', a=canon(a), b=canon(b),
                  **{'as': sa, 'bs': sb})

    def op_ix(self, s, i, name, *args):
        if s not in self.active:
            return
        x = self.attach(s, i)
        x.ev = []
        if self.cfg['comp'] == 'text':
            x.n += 1
        getattr(x, 'op_' + name)(*args)
        for e in x.ev:
            e['s'] = s
            e['i'] = i
            self.ev.append(e)

    def run(self, script):
        try:
            for op in script:
                getattr(self, 'op_' + op[1])(op[0], *op[2:])
        except Stop:
            pass
        finally:
            self.close()
        return self.ev


# --- generation -------------------------------------------------------------

class Kind:
    """Random configurations, updates and probes of one kind of index."""

    def __init__(self, rng, comp, big, focus):
        self.rng, self.comp = rng, comp
        self.solo = focus == 'solo'
        idk = rng.choice(ID_KINDS)
        self.nd = nd = rng.choice([75, 130]) if big else rng.randint(2, 9)
        if focus == 'adds':
            self.nd = nd = rng.randint(32, 44)  # a node of a tree holds these
        self.cfg = getattr(self, 'cfg_' + comp)(nd, idk, big)
        self.cfg.update(comp=comp, n=1, calm=focus == 'adds', cache=rng.choice([400, 400, 3, 20]),
                        storage='file' if rng.random() < (
                            .3 if self.solo else .1) else 'demo')
        if comp == 'text' and rng.random() < .4 and \
                self.cfg['lex'] != 'default':
            self.cfg['n'] = 2
        self.nf = 0

    def doc(self):
        return self.rng.randrange(self.nd)

    def ix(self):
        return self.rng.randrange(self.cfg['n'])

    # field
    def cfg_field(self, nd, idk, big):
        k = self.rng.choice(field.POOLS)
        nv = self.rng.choice([2, 40]) if big else self.rng.randint(1, 4)
        if k == 'bytes':
            nv = min(nv, 25)
        ps = self.rng.randint(0, 9)
        nv = len(field.pool(k, nv, ps))
        return dict(nd=nd, nv=nv, pool=k, pseed=ps, idkind=idk,
                    deffam=self.rng.random() < .5)

    def fill_field(self, d):
        return ['index', d, self.rng.randrange(self.cfg['nv']), 0]

    def upd_field(self):
        x = self.rng.random()
        if x < .65:
            return ['index', self.doc(), self.rng.randrange(self.cfg['nv']),
                    self.rng.randrange(3)]
        if x < .97 or not self.solo:
            return ['unindex', self.doc()]
        return ['clear']

    def probe_field(self, n):
        return field.probes(self.cfg, self.rng, n)

    # keyword
    def cfg_kwd(self, nd, idk, big):
        r = self.rng
        ci = r.random() < .4
        k = 'str' if ci else r.choice(['str', 'int', 'tuple', 'none', 'bytes'])
        nk = r.choice([2, 5, 33]) if big else r.randint(1, 5)
        if nk == 33:
            k, ci = 'int', False
        self.sp = [100 * i + j for i, c in enumerate(kwd.pool(k, nk))
                   for j in range(len(c))]
        self.ths = [1, 10, 64, 65, 100, nd] if big else [1, 2, 3, 4, nd]
        return dict(nd=nd, nk=nk, pool=k, ci=ci, idkind=idk,
                    deffam=r.random() < .5)

    def kws(self):
        return self.rng.sample(self.sp, min(len(self.sp), self.rng.choice(
            [0, 1, 1, 2, 2, 3])))

    def fill_kwd(self, d):
        return ['index', d, self.kws(), 'list']

    def upd_kwd(self):
        x = self.rng.random()
        if x < .6:
            return ['index', self.doc(), self.kws(),
                    self.rng.choice(kwd.FORMS)]
        if x < .84:
            return ['unindex', self.doc()]
        if x < .93:
            return ['optimize']
        if x < .99 or not self.solo:
            return ['thresh', self.rng.choice(self.ths)]
        return ['clear']

    def probe_kwd(self, n):
        r = self.rng
        out = [['counts'], ['has', self.doc()]]
        for _ in range(n):
            out.append(['search', r.sample(self.sp, min(
                len(self.sp), r.choice([1, 1, 2, 3]))),
                r.choice(['and', 'or']), r.choice(kwd.QFORMS)])
        return out

    # topic
    def cfg_topic(self, nd, idk, big):
        return dict(nd=nd, idkind=idk, sat=topic.SAT,
                    deffam=self.rng.random() < .5)

    def addfilter(self):
        self.nf += 1
        x = self.rng.choice([0, 2, 3, 5, 6, 10, 11])
        return [['new', self.nf, self.rng.randrange(6), x],
                ['add', self.nf]]

    def fill_topic(self, d):
        return ['index', d, self.rng.randrange(topic.OBJECTS)]

    def upd_topic(self):
        x = self.rng.random()
        if x < .65:
            return ['index', self.doc(), self.rng.randrange(topic.OBJECTS)]
        if x < .9 or not self.solo:
            return ['unindex', self.doc()]
        if x < .94:
            return self.addfilter()
        if x < .96:
            return ['del', self.rng.randrange(6)]
        if x < .99:
            return ['clearfilters']
        return ['clear']

    def probe_topic(self, n):
        r = self.rng
        return [['search', r.sample(range(6), r.choice([1, 1, 2, 3])),
                 r.choice(['and', 'or']), r.choice(topic.QFORMS)]
                for _ in range(n + 3)]

    # text
    def cfg_text(self, nd, idk, big):
        r = self.rng
        if not big and nd < 14:
            self.nd = nd = r.choice([nd, 14, 14])
        nw = r.choice([2, 3, 3, 8])
        return text.config(
            r, nd, nw, kind=r.choice(['okapi', 'cosine']), idkind=idk,
            lex=r.choice(['default', 'plain', 'html', 'wide', 'prefilled']),
            deffam=r.random() < .5, nolex=r.random() < .3, pre=120)

    def words(self):
        r = self.rng
        if r.random() < .5:
            return r.choices(range(self.cfg['nt']), k=r.choice([0, 1, 2, 4]))
        return r.choices(range(self.cfg['nw']), k=r.choice([1, 2, 3, 5]))

    def fill_text(self, d):
        return ['index', d, self.words(), 'str']

    def upd_text(self):
        x = self.rng.random()
        if x < .65:
            return ['index', self.doc(), self.words(),
                    self.rng.choice(text.FORMS)]
        if x < .98 or not self.solo:
            return ['unindex', self.doc()]
        return ['clear']

    def probe_text(self, n):
        r = self.rng
        nw = self.cfg['nw']
        d = self.doc()
        out = [['counts'], ['has', d], ['words', d]]
        for _ in range(n):
            x = r.random()
            w, v = r.randrange(nw), r.randrange(nw)
            out.append(['search', [w], 'str'] if x < .4 else
                       ['phrase', [w, v], 'str'] if x < .7 else
                       ['apply', [w, self.cfg['ops']['OR'][0], v],
                        r.choice(['raw', 'apply'])]
                       if x < .85 else ['glob', 'f*'])
        return out


    # lexicon
    def cfg_lex(self, nd, idk, big):
        r = self.rng
        self.vocab = ['w%d' % i for i in range(120 if big else
                                               r.choice([4, 8, 20]))]
        self.vocab += ['Foo', 'a', 'bar-baz', '\xe9', 'the', 'w*']
        self.pats = ['w1*', 'w?', 'b*', 'f?o', 'w*1']
        return dict(pipe=r.choice([[], ['split', 'lower', 'stop'],
                                   ['split', 'tag'], ['html', 'lower']]),
                    stop=[lex.codes(w) for w in lex.STOP], nd=nd,
                    tab=lex.table(''.join(self.vocab + self.pats) + ' <b>'))

    def source(self, n):
        r = self.rng
        ws = r.choices(self.vocab, k=n)
        return ['source', ws if not self.cfg['pipe'] or r.random() < .3
                else [' '.join(ws)], r.choice(['list', 'str', 'tuple'])]

    def fill_lex(self, d):
        return self.source(self.rng.choice([1, 2, 5]))

    def upd_lex(self):
        return self.source(self.rng.choice([0, 1, 1, 2, 3, 8]))

    def probe_lex(self, n):
        r = self.rng
        out = [['counts']]
        for _ in range(n):
            x = r.random()
            out.append(
                ['getwid', r.choice(self.vocab)] if x < .3 else
                ['term', r.choices(self.vocab, k=2), 'list'] if x < .5 else
                ['glob', r.choice(self.pats)] if x < .6 else
                ['getword', r.choice([0, 1, -1]),
                 r.choice([None, 0, 3, 17, 40])] if x < .8 else ['items'])
        return out


def gen(seed, focus, comp):
    rng = random.Random('txn %s %s' % (comp, seed))
    big = rng.random() < .15 and focus != 'adds'
    k = Kind(rng, comp, big, focus)
    s = []
    nk = [0]

    def ops(sess, i, x):
        for op in (x if isinstance(x[0], list) else [x]):
            s.append([sess, 'ix', i] + op)

    bads = dict(field=['docid'], kwd=['docid', 'string', 'mixed'],
                text=['docid', 'text', 'text']).get(comp)

    def update(sess):
        if bads and rng.random() < .05:
            ops(sess, k.ix(), ['reject', k.doc(), rng.choice(bads),
                               rng.randrange(56)])
        ops(sess, k.ix(), getattr(k, 'upd_' + comp)())

    def probe(sess, n):
        for i in range(k.cfg['n']):
            ops(sess, i, getattr(k, 'probe_' + comp)(n))

    def observe(n=4):
        s.append([9, 'begin'])
        if rng.random() < .3:
            s.append([9, 'evict'])
        probe(9, n)
        if comp in ('text', 'lex') and rng.random() < .4:
            s.append([9, 'lexicon'])
        if rng.random() < .1:
            s.append([9, 'pickle', k.ix()])
        s.append([9, 'abort'])

    if focus == 'adds':
        gen_adds(rng, k, comp, s, observe)
        return dict(cfg=k.cfg, script=s)

    # contents
    s.append([0, 'begin'])
    if comp == 'topic':
        for _ in range(rng.randint(1, 4)):
            ops(0, 0, k.addfilter())
    if comp == 'kwd' and rng.random() < .7:
        s.append([0, 'ix', 0, 'thresh', rng.choice(k.ths)])
    for i in range(k.cfg['n']):
        fill = list(range(k.nd))
        rng.shuffle(fill)
        for d in fill[:len(fill) if big else
                      rng.randint(0, len(fill))]:
            ops(0, i, getattr(k, 'fill_' + comp)(d))
            if k.solo and rng.random() < .03:
                s.append([0, 'evict'])
    s.append([0, 'commit'])
    observe()

    if k.solo:
        sp = []
        for _ in range(60):
            if not (s[-1][1] in ('ix', 'evict', 'gc', 'savepoint', 'rollback',
                                 'begin', 'pickle') and s[-1][0] == 0):
                s.append([0, 'begin'])
                sp = []
            x = rng.random()
            if x < .5:
                update(0)
                if rng.random() < .3:
                    probe(0, 2)
            elif x < .6:
                nk[0] += 1
                s.append([0, 'savepoint', nk[0]])
                sp.append(nk[0])
            elif x < .68:
                if sp:
                    sp = sp[:rng.randrange(len(sp)) + 1]
                    s.append([0, 'rollback', sp[-1]])
                    probe(0, 3)
            elif x < .76:
                s.append([0, rng.choice(['evict', 'gc'])])
                if rng.random() < .7:
                    probe(0, 3)
            elif x < .78:
                s.append([0, 'pickle', k.ix()])
            else:
                y = rng.random()
                s.append([0, 'commit'] if y < .6 else
                         [0, 'abort'] if y < .8 else
                         [0, 'commitfail', rng.choice(['', '~'])])
                if rng.random() < .25:
                    s.append([0, rng.choice(['reconnect', 'restart'])])
                    if s[-1][1] == 'restart':
                        s.append([0, 'restart', rng.random() < .5])
                if rng.random() < .5:
                    observe(3)
        s.append([0, 'commit'])
        s.append([0, 'restart', True])
        observe(6)
    else:
        ns = rng.choice([2, 2, 2, 3])
        lazy = rng.random() < .6    # transactions of few updates
        act = {}
        for _ in range(70):
            q = rng.randrange(ns)
            x = rng.random()
            if q not in act:
                s.append([q, 'begin'])
                act[q] = 0
            elif act[q] and x < (.35 if lazy else .15):
                s.append([q, 'commit'])
                del act[q]
                observe(3)
            elif x < .38:
                s.append([q, 'abort'])
                del act[q]
            elif x < .41:
                nk[0] += 1
                s.append([q, 'savepoint', nk[0]])
                if rng.random() < .6:
                    update(q)
                    s.append([q, 'rollback', nk[0]])
            elif x < .45:
                s.append([q, rng.choice(['evict', 'gc'])])
            elif x < .55:
                probe(q, 2)
            elif x < .57:
                s.append([q, 'commitfail', rng.choice(['', '~'])])
                del act[q]
            else:
                update(q)
                act[q] += 1
        for q in range(ns):
            s.append([q, 'commit'])
            observe(3)
    return dict(cfg=k.cfg, script=s)


def gen_adds(rng, k, comp, s, observe):
    """Sessions that add different documents to a populated index."""
    few = rng.randint(1, 3)

    def fill(d, rare=.1):
        if comp == 'topic':
            return ['index', d, rng.randrange(topic.OBJECTS)]
        if comp == 'field':
            return ['index', d, rng.randrange(min(few, k.cfg['nv'])), 0]
        if comp == 'kwd':
            return ['index', d, rng.sample(k.sp, rng.randint(
                1, min(few, len(k.sp)))), rng.choice(kwd.FORMS)]
        ws = rng.choices(range(min(few, k.cfg['nw'])), k=rng.randint(1, 4))
        if rng.random() < rare:
            ws = ws + [rng.randrange(k.cfg['nt'])]
        return ['index', d, ws, rng.choice(text.FORMS)]

    def ops(sess, x):
        s.append([sess, 'ix', 0] + x)
    ds = list(range(k.nd))
    rng.shuffle(ds)
    s.append([0, 'begin'])
    if comp == 'topic':
        for _ in range(rng.randint(1, 4)):
            for op in k.addfilter():
                ops(0, op)
    n = rng.randint(k.nd // 2, k.nd - 8)
    for d in ds[:n]:
        ops(0, fill(d))
    s.append([0, 'commit'])
    for _ in range(rng.randint(2, 5)):
        free = ds[n:]
        rng.shuffle(free)
        ns = rng.choice([2, 2, 3])
        added = []
        for q in range(ns):
            s.append([q, 'begin'])
        for q in range(ns):
            for d in free[q::ns][:rng.randint(0, 3)]:
                ops(q, fill(d))
                added.append(d)
            if rng.random() < .3:
                for p in getattr(k, 'probe_' + comp)(2):
                    ops(q, p)
        qs = list(range(ns))
        rng.shuffle(qs)
        for q in qs:
            s.append([q, 'commit'])
            observe(2)
        s.append([0, 'begin'])
        for d in added + rng.sample(ds, 2):
            ops(0, ['unindex', d])
        for d in rng.sample(ds[:n], 3):
            ops(0, fill(d))
        s.append([0, 'commit'])


def run(item, family):
    return Run(item['cfg'], family).run(item['script'])
