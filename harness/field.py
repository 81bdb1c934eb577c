"""Driver of the field index."""
import collections
import datetime
import random

from common import IdMap, Stop, call, canon, docids, rint, rnone

# --- values ---------------------------------------------------------------
# A pool is a list of classes in ascending order; the members of a class are
# equal objects (variants a caller may use for the same value).


def pool(kind, n, seed):
    r = random.Random(seed)
    if kind == 'int':
        xs = sorted(r.sample(range(-3 * n, 3 * n), n - 1) + [0]) \
            if n > 1 else [0]
        xs = sorted(set(xs))
        while len(xs) < n:
            xs.append(xs[-1] + 2)
        return [[x] for x in xs]
    if kind == 'mixed':     # equal numbers of different types
        out = []
        for i in range(n):
            x = i - n // 2
            c = [x, float(x)]
            if x in (0, 1):
                c.append(bool(x))
            out.append(c)
        return out
    if kind == 'float':
        return [[x / 4.0] for x in range(-(n // 2), n - n // 2)]
    if kind == 'str':
        out = ['']
        alphabet = 'AZaz09 _\x00é€'
        while len(out) < n:
            s = ''.join(r.choice(alphabet) for _ in range(r.randint(1, 3)))
            if s not in out:
                out.append(s)
        return [[x] for x in sorted(out)]
    if kind == 'bytes':
        return [[bytes([i // 7, i % 7][:1 + (i % 2)]) + b'x' * (i // 9)]
                for i in range(n)][:0] or \
            [[x] for x in sorted({bytes(bytearray([i // 5, i % 5])[:2])
                                  for i in range(n)} - {b''})]
    if kind == 'tuple':
        out = [()]
        i = 0
        while len(out) < n:
            out.append((i // 2,) if i % 2 == 0 else (i // 2, i))
            i += 1
        return [[x] for x in sorted(out)]
    if kind == 'date':
        d = datetime.date(2000, 2, 27)
        return [[d + datetime.timedelta(i)] for i in range(n)]
    if kind == 'none':      # None and numbers, None is the smallest
        return [[None]] + [[x] for x in range(-1, n - 2)]
    raise ValueError(kind)


POOLS = ['int', 'mixed', 'float', 'str', 'bytes', 'tuple', 'date', 'none']


class Range(collections.namedtuple('Range', 'lo hi')):
    """A query that is a tuple of a class of the caller."""


class Evil:
    """A value which can't be compared with any other."""

    def __lt__(self, other):
        raise TypeError('evil')
    __gt__ = __le__ = __ge__ = __lt__

    def __eq__(self, other):
        if self is other:
            return True
        raise TypeError('evil')
    __hash__ = None


def bad_docids(family):
    return ['x', 1.5, None, (1,), b'1',
            2**31 if family == 32 else 2**63,
            -2**31 - 1 if family == 32 else -2**63 - 1, 2**70]


def wrapped(family):
    """An index of another kind that sorts with the mixin: the parts the
    mixin needs have other names, as in the indexes of other packages."""
    from zope.index.field import FieldIndex
    from zope.index.field.sorting import SortingIndexMixin as Mixin

    class Wrapped(Mixin):
        _sorting_num_docs_attr = 'total'
        _sorting_fwd_index_attr = 'by_value'
        _sorting_rev_index_attr = 'by_doc'

        def __init__(self):
            self.inner = x = FieldIndex(family=family)
            self.family = family
            self.index_doc, self.unindex_doc = x.index_doc, x.unindex_doc
            self.apply, self.clear = x.apply, x.clear
            self.documentCount, self.wordCount = x.documentCount, x.wordCount

        total = property(
            lambda s: getattr(s.inner, Mixin._sorting_num_docs_attr))
        by_value = property(
            lambda s: getattr(s.inner, Mixin._sorting_fwd_index_attr))
        by_doc = property(
            lambda s: getattr(s.inner, Mixin._sorting_rev_index_attr))
    return Wrapped()


# --- execution ------------------------------------------------------------

class Exec:
    def __init__(self, cfg, family):
        import BTrees
        self.BTrees = BTrees
        self.family_n = family
        self.cfg = cfg
        self.ids = IdMap(docids(cfg['idkind'], cfg['nd'], family))
        self.pool = pool(cfg['pool'], cfg['nv'], cfg['pseed'])
        self.held = {}
        self.ev = []
        self.ix = self.new()
        self.docs = {}      # what the index should hold (for building twins)

    def new(self):
        from zope.index.field import FieldIndex
        if self.cfg.get('mixin'):
            return wrapped(getattr(self.BTrees, 'family%d' % self.family_n))
        if self.family_n == 32 and self.cfg.get('deffam'):
            return FieldIndex()
        return FieldIndex(family=getattr(self.BTrees,
                                         'family%d' % self.family_n))

    def val(self, v, k=0):
        c = self.pool[v]
        return c[k % len(c)]

    def bound(self, b):
        return None if b[0] else self.val(b[1], b[1])

    def emit(self, **e):
        self.ev.append(e)

    def obs(self, ix):
        n = len(self.pool)
        bs = [[1, 0]] + [[0, v] for v in range(n)
                         if self.val(v) is not None]
        if n > 6:
            bs = bs[::max(1, n // 5)]
        out = [rint(call(ix.documentCount)), rint(call(ix.wordCount))]
        for lo in bs:
            for hi in bs:
                q = (self.bound(lo), self.bound(hi))
                out.append(self.ids.seq(call(ix.apply, q)))
        for rev in (False, True):
            out.append(self.ids.seq(call(lambda: list(ix.sort(
                list(self.ids.real), rev)))))
        return out

    def run(self, script):
        for op in script:
            getattr(self, 'op_' + op[0])(*op[1:])
        return self.ev

    # updates
    def op_index(self, d, v, k=0):
        r = call(self.ix.index_doc, self.ids[d], self.val(v, k))
        self.docs[d] = v
        self.emit(op='index', d=d, v=v, r=rnone(r))

    def op_unindex(self, d):
        r = call(self.ix.unindex_doc, self.ids[d])
        self.docs.pop(d, None)
        self.emit(op='unindex', d=d, r=rnone(r))

    def op_clear(self):
        r = call(self.ix.clear)
        self.docs.clear()
        self.emit(op='clear', r=rnone(r))

    # queries
    def op_counts(self):
        self.emit(op='counts', n=rint(call(self.ix.documentCount)),
                  w=rint(call(self.ix.wordCount)))

    def op_apply(self, lo, hi, nt=False):
        if self.pool[0][0] is None:
            lo, hi = [(b if b[0] or b[1] else [1, 0]) for b in (lo, hi)]
        q = (Range if nt else lambda *a: a)(self.bound(lo), self.bound(hi))
        r = self.ids.seq(call(self.ix.apply, q))
        self.emit(op='apply', lo=lo, hi=hi, r=r, args=True)

    def op_applybad(self, kind):
        q = {'list': [None, None], 'one': (None,), 'three': (None,) * 3,
             'empty': (), 'listv': [self.val(0), self.val(0)],
             'str': 'ab', 'int': 5, 'set': {1, 2}, 'dict': {1: 1, 2: 2}}[kind]
        self.emit(op='applybad', kind=kind,
                  r=self.ids.seq(call(self.ix.apply, q)))

    def coll(self, c, kind):
        IF = self.ix.family.IF
        real = [self.ids[d] for d in c]
        if kind == 'list':
            return real
        if kind == 'gen':
            return iter(real)
        return {'tuple': tuple, 'set': set, 'Set': IF.Set,
                'TreeSet': IF.TreeSet, 'frozenset': frozenset,
                'Bucket': lambda x: IF.Bucket([(i, 1.0) for i in x]),
                'dict': dict.fromkeys}[kind](real)

    def op_sort(self, c, rev, lim, kind):
        """lim: None, or a number."""
        coll = self.coll(c, kind)
        before = list(coll) if kind != 'gen' else None
        r = call(lambda: list(self.ix.sort(
            coll, **dict(([('reverse', rev)] if rev or lim is None else [])
                         + ([('limit', lim)] if lim is not None else [])))))
        same = kind == 'gen' or list(coll) == before
        self.emit(op='sort', c=sorted(set(c)), rev=rev,
                  lim=0 if lim is None else (lim if lim >= 1 else -1),
                  r=self.ids.seq(r, sort=False), args=same)

    # cross-cutting
    def op_reject(self, d, bad, k):
        """An update that must raise; the rest is dropped if it does not."""
        if bad == 'docid':
            did = bad_docids(self.family_n)[k % 8]
            args = (did, self.val(d % len(self.pool)))
        else:
            args = (self.ids[d], [object(), Evil(), object, 3j, {}][k % 5])
        before = canon(self.obs(self.ix))
        r = call(self.ix.index_doc, *args)
        if r[0] == 'ok':
            self.emit(op='accepted', what=bad,
                      must=bad in ('docid', 'string'))
            if bad == 'value':
                # Whatever it is: the next change is made or refused.
                before = canon(self.obs(self.ix))
                r = call(self.ix.index_doc, self.ids[d], self.val(0))
                if r[0] != 'ok':
                    self.emit(op='rejected', what='after', exc=r[1],
                              before=before, after=canon(self.obs(self.ix)))
            raise Stop()
        self.emit(op='rejected', what=bad, exc=r[1], before=before,
                  after=canon(self.obs(self.ix)))

    def op_hold(self, h, lo, hi):
        q = (self.bound(lo), self.bound(hi))
        r = call(self.ix.apply, q)
        if r[0] == 'ok':
            self.held[h] = r[1]
            self.emit(op='hold', h=h, r=canon(self.ids.seq(r)))

    def op_mutate(self, h, d):
        """The caller empties a result, or toggles a docid in it."""
        if h in self.held:
            s = self.held[h]

            def f():
                if d < 0:
                    s.clear()
                elif self.ids[d] in s:
                    s.remove(self.ids[d])
                else:
                    s.insert(self.ids[d])
            call(f)
            self.emit(op='mutate', h=h, r=canon(self.ids.seq(('ok', s))))

    def op_reread(self, h):
        if h in self.held:
            self.emit(op='reread', h=h,
                      r=canon(self.ids.seq(('ok', self.held[h]))))

    def op_pure(self, lo, hi, c, rev, lim):
        """Queries in between two complete observations."""
        a = canon(self.obs(self.ix))
        rs = []
        for _ in range(2):
            q = (self.bound(lo), self.bound(hi))
            r = [self.ids.seq(call(self.ix.apply, q)),
                 self.ids.seq(call(lambda: list(self.ix.sort(
                     [self.ids[d] for d in c], rev, lim))), sort=False)]
            rs.append(canon(r))
        self.emit(op='pure', a=a, b=canon(self.obs(self.ix)),
                  r1=rs[0], r2=rs[1])

    def op_twin(self, seed, kind='all'):
        new = self.new()
        ds = sorted(self.docs)
        random.Random(seed).shuffle(ds)
        for d in ds:
            call(new.index_doc, self.ids[d], self.val(self.docs[d]))
        self.emit(op='twin', kind=kind, b=canon(self.obs(new)),
                  a=canon(self.obs(self.ix)), **{'as': [], 'bs': []})


def probes(cfg, rng=None, n=None):
    """All probes of a small index (or n random ones)."""
    nd, nv = cfg['nd'], cfg['nv']
    bs = [[1, 0]] + [[0, v] for v in range(nv)]
    if rng is None:
        out = [['counts']]
        out += [['apply', a, b] for a in bs for b in bs]
        kinds = ['list', 'Set', 'TreeSet', 'gen', 'set', 'tuple']
        i = 0
        for rev in (False, True):
            for lim in [None] + list(range(1, nd + 1)):
                i += 1
                out.append(['sort', list(range(nd)), rev, lim,
                            kinds[i % len(kinds)]])
        return out
    out = [['counts']] if rng.random() < .5 else []
    for _ in range(n):
        x = rng.random()
        if x < .5:
            b = [bs[0] if rng.random() < .2 else rng.choice(bs)
                 for _ in 'ab']
            if rng.random() < .5:
                b.sort(key=lambda x: x[1])
            out.append(['apply'] + b + [rng.random() < .1])
        elif x < .55:
            out.append(['applybad', rng.choice(
                ['list', 'one', 'three', 'empty', 'listv', 'str', 'int',
                 'set', 'dict'])])
        else:
            k = rng.choice([nd, rng.randint(0, nd)])
            c = rng.sample(range(nd), k)
            kind = rng.choice(['list', 'tuple', 'set', 'Set', 'TreeSet',
                               'gen', 'frozenset', 'Bucket', 'dict'])
            if kind in ('list', 'tuple', 'gen') and c and rng.random() < .3:
                c += rng.choices(c, k=2)
            lim = rng.choice([None, None, 1, 2, 3, rng.randint(1, nd + 2),
                              max(1, len(c) // 5),
                              rng.choice([0, -1, -5])])
            out.append(['sort', c, rng.random() < .5, lim, kind])
    return out


def gen(seed, focus=''):
    """A random script and its configuration."""
    rng = random.Random('field %s' % seed)
    size = rng.choices(['tiny', 'small', 'many', 'values', 'huge'],
                       [8, 10, 2, 2, 1])[0]
    kind = rng.choice(POOLS)
    if size == 'tiny':
        nd, nv, steps, pr = 3, rng.randint(1, 3), 30, 3
    elif size == 'small':
        nd, nv, steps, pr = rng.randint(4, 12), rng.randint(1, 6), 40, 3
    elif size == 'many':        # posting sets that split into buckets
        nd, nv, steps, pr = rng.choice([130, 300]), rng.randint(1, 3), 0, 0
    elif size == 'huge':        # more distinct values than any fixed number
        nd, nv, steps, pr = rng.randint(240, 420), rng.randint(150, 500), 0, 0
    else:                       # forward trees that split
        nd, nv, steps, pr = rng.randint(60, 120), rng.randint(40, 90), 0, 0
    if kind == 'bytes':
        nv = min(nv, 25)
    cfg = dict(nd=nd, nv=nv, pool=kind, pseed=rng.randint(0, 9),
               idkind=rng.choice(['small', 'neg', 'limits', 'spread']),
               mixin=rng.random() < .12, deffam=rng.random() < .5)
    cfg['nv'] = len(pool(kind, nv, cfg['pseed']))
    nv = cfg['nv']
    nonone = [v for v in range(nv) if not (kind == 'none' and v == 0)]
    # ids beyond 'top' are never indexed
    top = max(1, nd - rng.choice([0, 0, 1, 2, nd // 2, (9 * nd) // 10]))
    s = []
    hs = [0]

    def some_probes(n):
        s.extend(probes(cfg, rng, n))

    def extras():
        x = rng.random()
        if focus == 'reject' and x < .5 or x < .05:
            s.append(['reject', rng.randrange(top),
                      rng.choice(['docid', 'value']), rng.randrange(100)])
            some_probes(2)
        elif (focus == 'twin' and x < .4) or x < .1:
            s.append(['twin', rng.randrange(1000)])
        elif (focus == 'hold' and x < .8) or x < .2:
            y = rng.random()
            if y < .1:
                b = [[1, 0]] + [[0, v] for v in nonone]
                s.append(['pure', rng.choice(b), rng.choice(b),
                          rng.sample(range(nd), rng.randint(0, nd)),
                          rng.random() < .5, rng.choice([None, 1, 2])])
            elif y < .4 or not hs[0]:
                hs[0] += 1
                lo = rng.choice([[1, 0]] + [[0, v] for v in nonone])
                hi = rng.choice([lo, [1, 0]])
                s.append(['hold', hs[0], lo, hi])
            elif y < .6:
                s.append(['mutate', rng.randint(1, hs[0]),
                          rng.randint(-1, nd - 1)])
                some_probes(1)
                s.append(['twin', 0, 'mutate'])
            else:
                s.append(['reread', rng.randint(1, hs[0])])

    def update():
        x = rng.random()
        if x < .68:
            s.append(['index', rng.randrange(top), rng.randrange(nv),
                      rng.randrange(3)])
        elif x < .97:
            s.append(['unindex', rng.randrange(nd)])
        else:
            s.append(['clear'])

    if steps:
        for _ in range(steps):
            update()
            if rng.random() < .7:
                some_probes(pr)
            extras()
        for h in range(1, hs[0] + 1):
            s.append(['reread', h])
    else:
        perm = rng.sample(range(nv), nv)
        order = list(range(top))
        rng.shuffle(order)
        for d in order:
            s.append(['index', d, perm[d] if d < nv else rng.randrange(nv), 0])
        some_probes(6)
        for phase in range(3):
            for _ in range(top // 2):
                d = rng.randrange(top)
                s.append(['index', d, rng.randrange(nv), 0]
                         if rng.random() < (.7, .2, .5)[phase]
                         else ['unindex', d])
                if rng.random() < .03:
                    some_probes(2)
            some_probes(5)
            extras()
        if rng.random() < .5:
            for d in order:
                s.append(['unindex', d])
        some_probes(2)
        s.append(['twin', 1])
    return dict(cfg=cfg, script=s)


def walk_script(cfg, acts):
    """Script of a walk through the state graph, probing after new steps."""
    s = []
    for a, new in acts:
        s.append(a)
        if new:
            s.extend(probes(cfg))
    return s


def run(item, family):
    x = Exec(item['cfg'], family)
    try:
        x.run(item['script'])
    except Stop:
        pass
    return x.ev
