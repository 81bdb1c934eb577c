"""Driver of the keyword indexes."""
import random

from common import (ID_KINDS, IdMap, R, Stop, call, canon, docids, rbool,
                    rint, rnone)

STR = [['aa', 'AA', 'Aa'], ['é', 'É'], ['ß', 'ẞ'], ['ss', 'SS', 'sS'],
       ['k', 'K', '\u212a'], [''], ['i\u0307', 'İ'], ['b', 'B'],
       ['οδος', 'ΟΔΟΣ', 'Οδος'], ['two words', 'Two Words', 'TWO WORDS'],
       ['a', 'A'], ['ab', 'AB', 'aB', 'Ab'], ['zz-1', 'ZZ-1'], ['я', 'Я'],
       ['\u01c6', '\u01c5', '\u01c4'], ['1'], ['aaa', 'AAA', 'aAa'],
       ['/Some/Path/To/A/Document.html', '/some/path/to/a/document.html',
        '/some/path/to/a/document.HTML'],
       [' '], ['\t\n'], ['-'], [' x', ' X'], ['x ', 'X '], ['x', 'X'], ['1st', '1ST'], ['Ñandú ' * 20, 'ñandú ' * 20],
       ['\u2160', '\u2170'], ['\U00010400', '\U00010428'], ['a\nB', 'A\nb'],
       ['a\x00B', 'A\x00b', 'a\x00b'], ['ﬁ', 'fi', 'FI'],
       ['\u1e9e\u0130', '\xdf\u0130'], ['q' * 300, 'Q' * 300,
                                       'q' * 299 + 'Q']]


def pool(kind, n):
    if kind == 'str':
        out = [[w for w in c if w.lower() == c[0].lower()] for c in STR]
        i = 0
        while len(out) < n:
            out.append(['w%d' % i, 'W%d' % i])
            i += 1
        return out[:n]
    if kind.startswith('mixed'):
        # other keywords, with several classes one letter case apart
        out = [[w for w in c if w.lower() == c[0].lower()] for c in STR]
        random.Random(kind).shuffle(out)
        return out[:n]
    if kind == 'int':
        return [[x] for x in range(-(n // 2), n - n // 2)]
    if kind == 'tuple':
        return [[()]] + [[(i // 3, i % 3)] for i in range(n - 1)]
    if kind == 'none':
        return [[None]] + [[i] for i in range(n - 1)]
    if kind == 'bytes':
        return [[b'']] + [[bytes([i + 1])] for i in range(n - 1)]
    raise ValueError(kind)


def bad_docids(family):
    return ['x', 1.5, (1,), b'1', 2**31 if family == 32 else 2**63,
            -2**31 - 1 if family == 32 else -2**63 - 1, 2**70, None]


def boom():
    yield 'aa'
    raise RuntimeError('boom')


class Exec:
    def __init__(self, cfg, family):
        import BTrees
        self.fam = getattr(BTrees, 'family%d' % family)
        self.family_n = family
        self.cfg = cfg
        self.ids = IdMap(docids(cfg['idkind'], cfg['nd'], family))
        self.pool = pool(cfg['pool'], cfg['nk'])
        self.held = {}
        self.ev = []
        self.th = 64
        self.docs = {}
        self.ix = self.new()

    def new(self):
        from zope.index.keyword import index
        cls = (index.CaseInsensitiveKeywordIndex if self.cfg['ci']
               else index.KeywordIndex)
        if self.family_n == 32 and self.cfg.get('deffam'):
            x = cls()
        else:
            x = cls(family=self.fam)
        return x

    def kw(self, k):
        c = self.pool[k // 100]
        return c[(k % 100) % len(c)]

    def spelled(self, k):
        """The canonical number of a keyword as spelled."""
        c = self.pool[k // 100]
        return k // 100 * 100 + (k % 100) % len(c)

    def emit(self, **e):
        self.ev.append(e)

    def all_kws(self):
        return [100 * i + j for i, c in enumerate(self.pool)
                for j in range(len(c))]

    def obs(self, ix):
        out = [rint(call(ix.documentCount)), rint(call(ix.wordCount))]
        nd = len(self.ids.real)
        for d in range(nd) if nd < 20 else range(0, nd, 7):
            out.append(rbool(call(ix.has_doc, self.ids[d])))
        ks = self.all_kws()
        if len(ks) > 20:
            ks = ks[::3]
        for k in ks:
            out.append(self.ids.seq(call(ix.search, [self.kw(k)])))
        for a, b in zip(ks, ks[1:] + ks[:1]):
            for o in ('and', 'or'):
                out.append(self.ids.seq(
                    call(ix.search, [self.kw(a), self.kw(b)], o)))
        return out

    def run(self, script):
        for op in script:
            getattr(self, 'op_' + op[0])(*op[1:])
        return self.ev

    def form(self, ks, form):
        xs = [self.kw(k) for k in ks]
        OO = self.fam.OO
        return {'list': list, 'tuple': tuple, 'set': set,
                'frozenset': frozenset, 'dict': dict.fromkeys,
                'gen': lambda x: (i for i in x), 'iter': iter,
                'OOSet': OO.Set, 'OOTreeSet': OO.TreeSet}[form](xs)

    def op_index(self, d, ks, form='list'):
        seq = self.form(ks, form)
        before = None if form in ('gen', 'iter') else list(seq)
        r = call(self.ix.index_doc, self.ids[d], seq)
        same = before is None or list(seq) == before
        # the caller goes on using its object
        if form == 'list':
            seq.append(self.kw(0))
            del seq[:1]
        elif form in ('set', 'dict', 'OOSet', 'OOTreeSet'):
            seq.clear()
        if ks:
            self.docs[d] = list(ks)
        else:
            self.docs.pop(d, None)
        self.emit(op='index', d=d, ks=[self.spelled(k) for k in ks],
                  r=rnone(r), args=same, form=form)

    def op_unindex(self, d):
        self.docs.pop(d, None)
        self.emit(op='unindex', d=d,
                  r=rnone(call(self.ix.unindex_doc, self.ids[d])))

    def op_clear(self):
        self.docs.clear()
        self.emit(op='clear', r=rnone(call(self.ix.clear)))

    def op_thresh(self, n):
        self.th = n
        self.ix.tree_threshold = n
        self.emit(op='thresh', n=n)

    def op_optimize(self):
        self.emit(op='optimize', r=rnone(call(self.ix.optimize)))

    def op_counts(self):
        self.emit(op='counts', n=rint(call(self.ix.documentCount)),
                  w=rint(call(self.ix.wordCount)))

    def op_has(self, d):
        self.emit(op='has', d=d, r=rbool(call(self.ix.has_doc, self.ids[d])))

    def query(self, ks, opr, form):
        """(callable, arguments object) of a query form."""
        wrap, _, f = form.rpartition('/')
        if f == 'str' and not (
                len(ks) == 1 and isinstance(self.kw(ks[0]), str)):
            f = 'list'
        q = self.kw(ks[0]) if f == 'str' else self.form(ks, f)
        if wrap == 'dict':
            a = {'query': q}
            if opr == 'or' or len(ks) % 2:
                a['operator'] = opr
            return (lambda: self.ix.apply(a)), a
        if wrap == 'apply' and opr == 'and':
            return (lambda: self.ix.apply(q)), q
        if opr == 'and' and len(ks) % 2:
            return (lambda: self.ix.search(q)), q
        return (lambda: self.ix.search(q, opr)), q

    def op_search(self, ks, opr, form='list'):
        f, a = self.query(ks, opr, form)
        gen = form.endswith(('gen', 'iter'))
        before = None if gen else repr(a)
        r = self.ids.seq(call(f))
        self.emit(op='search', q=[self.spelled(k) for k in ks], opr=opr, r=r,
                  args=gen or repr(a) == before, form=form)

    def op_searchbad(self, k, opr):
        o = {'none': None, 'num': 1}.get(opr, opr)
        q = [self.kw(x) for x in k]
        if len(k) % 2:
            r = call(self.ix.apply, {'query': q, 'operator': o})
        else:
            r = call(self.ix.search, q, o)
        self.emit(op='searchbad', r=self.ids.seq(r), opr=opr)

    def op_reject(self, d, bad, k):
        w = self.kw(k % len(self.pool) * 100)
        did = self.ids[d]
        if bad == 'docid':
            did, seq = bad_docids(self.family_n)[k % 8], [
                w, self.kw((k + 1) % len(self.pool) * 100)]
        elif bad == 'string':
            seq = ['abc', 'aa', ''][k % 3]
        elif bad == 'boom':
            seq = boom()
        elif bad == 'mixed':     # keywords not comparable with each other
            seq = [[w, object()], [object(), w], [w, object], [3j, w],
                   [{}, w], [3j], ({},)][k % 7]
        else:                    # not comparable with those of the index
            if not any(self.kw(x) is not None
                       for ks in self.docs.values() for x in ks):
                return
            alien = 'x' if not isinstance(self.pool[-1][0], str) else 5
            if self.cfg['ci']:
                alien = b'x'
            seq = [[alien], [None, alien] if not self.cfg['ci'] else [alien],
                   (alien,)][k % 3]
        before = canon(self.obs(self.ix))
        r = call(self.ix.index_doc, did, seq)
        if r[0] == 'ok':
            self.emit(op='accepted', what=bad,
                      must=bad in ('docid', 'string'))
            if bad in ('mixed', 'alien'):
                # Whatever they are: the next change is made or refused.
                before = canon(self.obs(self.ix))
                r = call(self.ix.index_doc, did, [w])
                if r[0] != 'ok':
                    self.emit(op='rejected', what='after', exc=r[1],
                              before=before, after=canon(self.obs(self.ix)))
            raise Stop()
        self.emit(op='rejected', what=bad, exc=r[1], before=before,
                  after=canon(self.obs(self.ix)))

    def op_hold(self, h, ks, opr, form):
        r = call(self.query(ks, opr, form)[0])
        if r[0] == 'ok':
            self.held[h] = r[1]
            self.emit(op='hold', h=h, r=canon(self.ids.seq(r)))

    def op_mutate(self, h, d):
        if h in self.held:
            s = self.held[h]

            def f():
                if d < 0:
                    s.clear()
                elif self.ids[d] in s:
                    s.remove(self.ids[d])
                else:
                    s.insert(self.ids[d])
            call(f)
            self.emit(op='mutate', h=h, r=canon(self.ids.seq(('ok', s))))

    def op_reread(self, h):
        if h in self.held:
            self.emit(op='reread', h=h,
                      r=canon(self.ids.seq(('ok', self.held[h]))))

    def op_pure(self, ks, opr, form):
        a = canon(self.obs(self.ix))
        rs = [canon(self.ids.seq(call(self.query(ks, opr, form)[0])))
              for _ in range(2)]
        self.emit(op='pure', a=a, b=canon(self.obs(self.ix)),
                  r1=rs[0], r2=rs[1])

    def op_twin(self, seed, kind='all'):
        new = self.new()
        if random.Random(seed).random() < .5:
            new.tree_threshold = self.th
        ds = sorted(self.docs)
        random.Random(seed).shuffle(ds)
        for d in ds:
            call(new.index_doc, self.ids[d], [self.kw(k) for k in self.docs[d]])
        self.emit(op='twin', kind=kind, b=canon(self.obs(new)),
                  a=canon(self.obs(self.ix)), **{'as': [], 'bs': []})


FORMS = ['list', 'tuple', 'set', 'frozenset', 'gen', 'iter', 'dict', 'OOSet',
         'OOTreeSet']
QFORMS = ['list', 'tuple', 'set', 'gen', 'str', 'apply/list', 'apply/str',
          'apply/tuple', 'dict/list', 'dict/str', 'dict/tuple', 'frozenset',
          'OOSet', 'OOTreeSet', 'dict', 'iter', 'apply/frozenset',
          'dict/set', 'dict/gen']


def probes(cfg):
    """Complete probes of a small index."""
    out = [['counts']]
    out += [['has', d] for d in range(cfg['nd'])]
    nk = cfg['nk']
    for o in ('and', 'or'):
        out.append(['search', [], o, 'list'])
        for a in range(nk):
            out.append(['search', [100 * a + a % 2], o, 'str'])
            for b in range(a + 1, nk):
                out.append(['search', [100 * a, 100 * b], o, 'list'])
    return out


def gen(seed, focus=''):
    rng = random.Random('keyword %s' % seed)
    ci = rng.random() < (.9 if focus == 'case' else .4)
    kind = 'str' if ci else rng.choice(
        ['str', 'str', 'int', 'tuple', 'none', 'bytes'])
    big = rng.random() < (.35 if focus == 'thresh' else .15)
    if big:
        nd, nk = rng.choice([70, 130, 200]), rng.randint(1, 5)
    else:
        nd, nk = rng.randint(2, 12), rng.randint(1, 8)
    if rng.random() < .05:
        nk = 70          # forward tree that splits
        kind, ci = 'int', False
    wordy = not big and rng.random() < .06  # documents of many keywords
    if wordy:
        nd, nk = rng.randint(8, 40), rng.choice([30, 80, 150])
        kind = rng.choice(['int', 'str', 'tuple'])
        ci = kind == 'str' and ci
        if rng.random() < .15:
            nd, nk, kind, ci = 420, 3, 'int', False
    if kind == 'str' and nk < 9 and rng.random() < (
            .6 if focus == 'case' else .3):
        kind = 'mixed%d' % rng.randrange(10**6)
    cfg = dict(nd=nd, nk=nk, pool=kind, ci=ci, idkind=rng.choice(ID_KINDS),
               deffam=rng.random() < .5)
    sp = [100 * i + j for i, c in enumerate(pool(kind, nk))
          for j in range(len(c))]
    use = sp if rng.random() < .5 else sp[:-1] or sp
    s = []
    hs = [0]
    if big:
        ths = [0, 10**6, 1, 10, 64, 65, 100, 120, nd, nd + 1]
    else:
        ths = [1, 1, 2, 2, 3, 3, 4, nd, 0, 10**6]
    if focus == 'thresh' or rng.random() < .5:
        s.append(['thresh', rng.choice(ths)])

    def kws():
        n = min(len(use), rng.choice([0, 1, 1, 2, 2, 3, 5]))
        if wordy and nk > 3:
            n = min(len(use), rng.choice([1, 10, nk // 2, nk, len(use)]))
        ks = rng.sample(use, n)
        if ks and rng.random() < .3:
            ks += rng.choices(ks, k=rng.randint(1, 2))
        return ks

    def many(ks):
        """Many keywords, often all of some document."""
        y = rng.random()
        if y < .3:
            return ks
        if y < .5:
            return rng.sample(sp, rng.randint(1, min(60, len(sp))))
        docs = [op[2] for op in s if op[0] == 'index' and op[2]]
        if not docs:
            return ks
        d = list(rng.choice(docs))
        rng.shuffle(d)
        return d[:rng.choice([5, 20, 40, 70])] + (
            [rng.choice(sp)] if rng.random() < .3 else [])

    def some(n):
        for _ in range(n):
            x = rng.random()
            if x < .15:
                s.append(['counts'])
            elif x < .25:
                s.append(['has', rng.randrange(nd)])
            elif x < .3:
                s.append(['searchbad', rng.sample(sp, rng.randint(0, min(
                    2, len(sp)))), rng.choice(
                        ['xor', 'AND', 'OR', 'not', '', 'none', 'num'])])
            else:
                k = min(len(sp), rng.choice([0, 1, 1, 2, 2, 3]))
                ks = rng.sample(sp, k)
                if wordy:
                    ks = many(ks)
                if ks and rng.random() < .1:
                    ks.append(ks[0])
                s.append(['search', ks, rng.choice(['and', 'or']),
                          rng.choice(QFORMS)])

    def update():
        x = rng.random()
        if x < .6:
            s.append(['index', rng.randrange(nd), kws(), rng.choice(FORMS)])
        elif x < .88:
            s.append(['unindex', rng.randrange(nd)])
        elif x < .9:
            s.append(['clear'])
        elif x < .95 or focus == 'thresh':
            s.append(['thresh', rng.choice(ths)])
        else:
            s.append(['optimize'])
        if focus == 'thresh' and rng.random() < .2:
            s.append(['optimize'])

    def extras():
        x = rng.random()
        if focus == 'reject' and x < .5 or x < .05:
            s.append(['reject', rng.randrange(nd), rng.choice(
                ['docid', 'string', 'boom', 'mixed', 'alien']),
                rng.randrange(60)])
            some(2)
        elif (focus == 'twin' and x < .4) or x < .1:
            s.append(['twin', rng.randrange(1000)])
        elif (focus == 'hold' and x < .8) or x < .2:
            y = rng.random()
            k = min(len(sp), rng.choice([0, 1, 1, 1, 2]))
            q = [many(rng.sample(sp, k)) if wordy else rng.sample(sp, k), rng.choice(['and', 'or']),
                 rng.choice(QFORMS)]
            if y < .15:
                s.append(['pure'] + q)
            elif y < .4 or not hs[0]:
                hs[0] += 1
                s.append(['hold', hs[0]] + q)
            elif y < .6:
                s.append(['mutate', rng.randint(1, hs[0]),
                          rng.randint(-1, nd - 1)])
                some(1)
                s.append(['twin', 0, 'mutate'])
            else:
                s.append(['reread', rng.randint(1, hs[0])])

    if big or nk == 70 or wordy:
        order = list(range(nd))
        rng.shuffle(order)
        for d in order:
            s.append(['index', d, kws(), rng.choice(FORMS)])
            if rng.random() < .05:
                some(1)
        some(6)
        for phase in range(4):
            if rng.random() < .6:
                s.append(['thresh', rng.choice(ths)])
            if rng.random() < .6:
                s.append(['optimize'])
                some(3)
            extras()
            for _ in range(nd // 2):
                d = rng.randrange(nd)
                s.append(['index', d, kws(), 'list']
                         if rng.random() < (.7, .2, .8, .5)[phase]
                         else ['unindex', d])
                if rng.random() < .04:
                    some(1)
            some(5)
            for h in range(1, hs[0] + 1):
                s.append(['reread', h])
        if rng.random() < .5:
            for d in order:
                s.append(['unindex', d])
            some(2)
        s.append(['twin', 1])
    else:
        for _ in range(45):
            update()
            if rng.random() < .7:
                some(3)
            extras()
        for h in range(1, hs[0] + 1):
            s.append(['reread', h])
    return dict(cfg=cfg, script=s)


def run(item, family):
    x = Exec(item['cfg'], family)
    try:
        x.run(item['script'])
    except Stop:
        pass
    return x.ev
